#include "large.hpp"
#include <array>
#include <cmath>
#include <tuple>
#include "library/integral_geom/point.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
using namespace hv; namespace ig = suisen::integral_geometry; using Pt = std::pair<i64, i64>; using ig::Point; using ig::Inclusion;
static i128 cr(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.second - o.second) - (i128)(a.second - o.second) * (b.first - o.first); }
static i128 d2(const Pt& a, const Pt& b) { i128 x = a.first - b.first, y = a.second - b.second; return x * x + y * y; }
// shapes: 0 uniform, 1 circle, 2 on few lines, 3 small grid with many duplicates, 4 parabola
static std::vector<Pt> cloud(Gen& g, Bulk& b, int n) { int sh = g.raw(5); g.note("n ", n, " shape ", sh); i64 R = 1000000000; std::vector<Pt> v(n); for (int i = 0; i < n; ++i) switch (sh) { case 0: v[i] = { b.range(-R, R), b.range(-R, R) }; break; case 1: { double t = b.raw(1000000000) * 6.283185307179586e-9; v[i] = { (i64)(R * std::cos(t)), (i64)(R * std::sin(t)) }; } break; case 2: { i64 k = b.range(-1000, 1000), t = b.range(-100000, 100000); v[i] = i % 3 ? Pt{ t, 2 * t + (k > 0 ? 7 : -7) } : Pt{ k, 3 * k }; } break; case 3: v[i] = { b.range(0, 200), b.range(0, 200) }; break; default: { i64 t = b.range(-30000, 30000); v[i] = { t, t * t }; } } return v; }
static std::vector<Pt> hull(std::vector<Pt> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); int n = v.size(); if (n <= 2) return v; std::vector<Pt> lo, up; for (auto& p : v) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), p) < 0) lo.pop_back(); lo.push_back(p); } for (int i = n; i-- > 0;) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), v[i]) < 0) up.pop_back(); up.push_back(v[i]); } lo.pop_back(); up.pop_back(); lo.insert(lo.end(), up.begin(), up.end()); return lo; }
PBT(hull_large, 4, "every case: tens of thousands of points") {
    int n = g.in(30000, 70000); Bulk b(g); g.nontrivial(); auto v = cloud(g, b, n); auto w = hull(v); std::vector<Point> vp; for (auto& p : v) vp.emplace_back(p.first, p.second); auto ids = ig::convex_hull<Point>(vp); std::vector<Pt> r; for (int i : ids) r.push_back(v[i]); CKM(r == w, "hull"); int h = w.size();
    std::vector<Pt> cor; for (int i = 0; i < h; ++i) if (cr(w[(i + h - 1) % h], w[i], w[(i + 1) % h]) != 0) cor.push_back(w[i]); int c = cor.size(); i128 far = 0; if (c <= 6000) { for (int i = 0; i < c; ++i) for (int j = 0; j < i; ++j) far = std::max(far, d2(cor[i], cor[j])); auto q = ig::farthest_pair<Point>(vp); CKM(d2({ q.first.x, q.first.y }, { q.second.x, q.second.y }) == far, "farthest pair"); ig::Polygon P; for (auto& p : w) P.push_back(Point(p.first, p.second)); auto [i, j] = ig::convex_diameter(P); CKM((i128)ig::square_abs(P[i] - P[j]) == far, "diameter"); }
    ig::ConvexHullInclusion<Pt> inc(w); for (int t = 0; t < 300; ++t) { Pt p = t % 3 == 0 ? v[b.raw(n)] : t % 3 == 1 ? Pt{ v[b.raw(n)].first, v[b.raw(n)].second } : Pt{ (w[b.raw(h)].first + w[b.raw(h)].first) / 2, (w[b.raw(h)].second + w[b.raw(h)].second) / 2 }; if (t % 5 == 0) { auto& q = w[b.raw(h)]; p = { q.first + b.in(-1, 1), q.second + b.in(-1, 1) }; } int s = 2; for (int i = 0; i < h; ++i) { i128 x = cr(w[i], w[(i + 1) % h], p); if (x < 0) { s = 0; break; } if (x == 0) s = 1; } auto z = inc(p); EQ(z == Inclusion::OUT ? 0 : z == Inclusion::ON ? 1 : 2, s); }
    i128 A = 0; i64 B = 0; for (int i = 0; i < h; ++i) { A += cr({ 0, 0 }, w[i], w[(i + 1) % h]); B += std::gcd(std::abs(w[i].first - w[(i + 1) % h].first), std::abs(w[i].second - w[(i + 1) % h].second)); } i64 lat = i64((A + B) / 2 + 1); EQ((i64)ig::count_lattice_points<Pt>(w), lat);
}
PBT(closest_large, 4, "every case: tens of thousands of points") {
    int n = g.in(30000, 70000); Bulk b(g); g.nontrivial(); auto v = cloud(g, b, n); if (g.coin()) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); b.shuffle(v); n = v.size(); } std::vector<Point> vp; for (auto& p : v) vp.emplace_back(p.first, p.second); auto [p, q] = ig::closest_pair(vp); auto s = v; std::sort(s.begin(), s.end()); i128 best = d2(s[0], s[1]); std::set<Pt> a; size_t l = 0; for (auto& x : s) { i64 d = (i64)std::sqrt((double)best) + 1; while (l < s.size() && s[l].first < x.first - d) a.erase({ s[l].second, s[l].first }), ++l; for (auto it = a.lower_bound({ x.second - d, INT64_MIN }); it != a.end() && it->first <= x.second + d; ++it) best = std::min(best, d2({ it->second, it->first }, x)); a.insert({ x.second, x.first }); } for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) best = 0; CK(d2({ p.x, p.y }, { q.x, q.y }) == best); CK(std::binary_search(s.begin(), s.end(), Pt{ p.x, p.y }) && std::binary_search(s.begin(), s.end(), Pt{ q.x, q.y }));
}
PBT(argument_sort_large, 3, "every case: more than 2^16 points") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto v = cloud(g, b, n); auto w = v; ig::sort_points_by_argument(w); auto key = [](const Pt& p) { return p.second < 0 ? 0 : p.second == 0 && p.first >= 0 ? 1 : p.second == 0 ? 3 : 2; }; for (int i = 1; i < n; ++i) { int x = key(w[i - 1]), y = key(w[i]); CK(x <= y); if (x == y && x % 2 == 0) CK(cr({ 0, 0 }, w[i - 1], w[i]) >= 0); } CK(sorted(w) == sorted(v));
}
