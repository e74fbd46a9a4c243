// Integer geometry with COORDINATE_TYPE / MULTIPLIED_TYPE configured by the including file; MAXC: largest coordinate, MAXR: largest radius.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <tuple>
#include <vector>
#include "library/integral_geom/point.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
using namespace hv;
namespace ig = suisen::integral_geometry;
using Pt = std::pair<i64, i64>;
using ig::Point; using ig::Inclusion;
static Point mkp(const Pt& p) { return Point(p.first, p.second); }
static i128 cr(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.second - o.second) - (i128)(a.second - o.second) * (b.first - o.first); }
static i128 dt(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.first - o.first) + (i128)(a.second - o.second) * (b.second - o.second); }
static i128 d2(const Pt& a, const Pt& b) { return dt(a, b, b); }
static int sg(i128 x) { return x < 0 ? -1 : x > 0; }
static i64 coord(Gen& g, int mode) { switch (mode) { case 0: return g.in(-2, 2); case 1: return g.in(-6, 6); case 2: return g.in(-1000, 1000); case 3: return g.range(-MAXC, MAXC); default: return g.chance(1, 2) ? g.in(-1, 1) * MAXC : g.range(-MAXC, MAXC); } }
static Pt gp(Gen& g, int mode) { i64 x = coord(g, mode); return { x, coord(g, mode) }; }
static std::vector<Pt> gps(Gen& g, int n, int mode) { std::vector<Pt> v(n); int shape = g.raw(4); i64 dx = g.in(-3, 3), dy = g.in(-3, 3), step = mode < 3 ? 1 : MAXC / 400; for (auto& p : v) { if (shape == 0) { i64 t = g.in(-100, 100); p = { dx * t * step + 1, dy * t * step - 2 }; } else p = gp(g, mode); } return v; }
// a point on the far side of a from b, inside the coordinate range
static Point opp(const Pt& a, const Pt& b) { auto h = [](i64 p, i64 q) { return p - (q > p) + (q < p); }; if (a.first != b.first && a.second != b.second) { i64 dx = b.first - a.first, dy = b.second - a.second; if (std::max(std::abs(a.first), std::abs(a.second)) + std::max(std::abs(dx), std::abs(dy)) > MAXC) return mkp(a); return mkp({ a.first - dx, a.second - dy }); } return mkp({ h(a.first, b.first), h(a.second, b.second) }); }
static std::vector<Pt> uniq(std::vector<Pt> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static bool on_seg(const Pt& a, const Pt& b, const Pt& p) { return cr(a, b, p) == 0 && dt(p, a, b) <= 0; }
// all input points on the boundary of the convex hull, counter-clockwise from the lexicographic minimum (distinct points)
static std::vector<Pt> hull(std::vector<Pt> v) { v = uniq(v); int n = v.size(); if (n <= 2) return v; bool col = true; for (auto& p : v) col &= cr(v[0], v.back(), p) == 0; if (col) return v; std::vector<Pt> lo, up; for (auto& p : v) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), p) < 0) lo.pop_back(); lo.push_back(p); } for (int i = n - 1; i >= 0; --i) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), v[i]) < 0) up.pop_back(); up.push_back(v[i]); } lo.pop_back(); up.pop_back(); lo.insert(lo.end(), up.begin(), up.end()); return lo; }
static int inhull(const std::vector<Pt>& h, const Pt& p) { int n = h.size(); if (n == 1) return p == h[0] ? 1 : 0; bool col = true; for (auto& q : h) col &= cr(h[0], h[n - 1], q) == 0; if (col) { Pt a = *std::min_element(h.begin(), h.end()), b = *std::max_element(h.begin(), h.end()); return on_seg(a, b, p); } bool on = false; for (int i = 0; i < n; ++i) { i128 c = cr(h[i], h[(i + 1) % n], p); if (c < 0) return 0; on |= c == 0; } return on ? 1 : 2; }
static int code(Inclusion x) { return x == Inclusion::OUT ? 0 : x == Inclusion::ON ? 1 : 2; }

PBT(relations, 15000, "collinear triple or touching segments") { int mode = g.raw(5); Pt a = gp(g, mode), b = gp(g, mode), c = gp(g, mode), d = gp(g, mode), e = gp(g, mode); if (g.chance(1, 3)) { i64 t = g.in(-2, 3); if (mode < 3) c = { a.first + (b.first - a.first) * t, a.second + (b.second - a.second) * t }; } if (a == b) b.first += b.first < MAXC ? 1 : -1; if (c == d) d.second += d.second < MAXC ? 1 : -1; g.note(a, b, c, d, e); auto A = mkp(a), B = mkp(b), C = mkp(c), D = mkp(d), E = mkp(e);
    int is = ig::isp(A, B, C); { i128 x = cr(a, b, c); int w = x > 0 ? 1 : x < 0 ? -1 : dt(a, b, c) < 0 ? -2 : dt(b, a, c) < 0 ? 2 : 0; EQ(is, w); }
    i128 sa = cr(a, b, c); CKM((i128)ig::signed_area_doubled(A, B, C) == sa, "signed triangle area"); CKM((i128)ig::area_doubled(A, B, C) == (sa < 0 ? -sa : sa), "triangle area"); Pt z{ 0, 0 }; CKM((i128)ig::dot(A, B) == dt(z, a, b) && (i128)ig::det(A, B) == cr(z, a, b) && (i128)ig::square_abs(A) == d2(z, a), "dot, det, norm"); EQ(ig::compare(a.first, b.first), sg((i128)a.first - b.first)); EQ(ig::sgn(a.first), sg(a.first)); CKM(std::abs(ig::abs(A) - std::hypot((double)a.first, (double)a.second)) <= 1e-6 * (1 + std::hypot((double)a.first, (double)a.second)) && std::abs(ig::arg(A) - std::atan2((double)a.second, (double)a.first)) < 1e-9, "abs, arg");
    Pt u{ b.first - a.first, b.second - a.second }, w{ d.first - c.first, d.second - c.second }; bool par = cr(z, u, w) == 0, ort = dt(z, u, w) == 0; ig::Line l1(A, B), l2(C, D); ig::Ray r1(A, B), r2(C, D); ig::Segment s1(A, B), s2(C, D); bool same = par && cr(a, b, c) == 0;
    CKM(ig::is_parallel(l1, l2) == par && ig::is_parallel(s1, r2) == par, "parallel"); CKM(ig::is_orthogonal(l1, l2) == ort && ig::is_orthogonal(r1, s2) == ort, "orthogonal"); CKM(ig::on_the_same_line(l1, s2) == same && (l1 == l2) == same, "same line"); CKM((r1 == r2) == (a == c && same && dt(z, u, w) > 0), "equal rays"); CKM(r1 == ig::Ray(A, B) && !(r1 == ig::Ray(A, opp(a, b))), "opposite rays differ"); CKM((s1 == s2) == ((a == c && b == d) || (a == d && b == c)) && s1 == ig::Segment(B, A), "equal segments");
    for (Pt p : { c, e }) { Point Q = mkp(p); bool ol = cr(a, b, p) == 0; EQ(code(ig::contains(l1, Q)), (int)ol); EQ(code(ig::contains(r1, Q)), (int)(ol && dt(a, b, p) >= 0)); EQ(code(ig::contains(s1, Q)), (int)(ol && dt(p, a, b) <= 0)); }
    bool inter; { int o1 = sg(cr(a, b, c)), o2 = sg(cr(a, b, d)), o3 = sg(cr(c, d, a)), o4 = sg(cr(c, d, b)); inter = (o1 * o2 < 0 && o3 * o4 < 0) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b); } CKM(ig::has_common_point(s1, s2) == inter && ig::has_common_point(s2, s1) == inter, "segments meet"); CKM(ig::has_common_point(s1, ig::Segment(E, E)) == on_seg(a, b, e), "segment meets a point");
    i64 R = mode < 3 ? 15 : MAXR; i64 r = g.range(1, R), q = g.chance(1, 3) ? r : g.range(1, R); i128 D2 = d2(a, c); { ig::Circle c1(A, r), c2(C, q); i128 sp = ((i128)r + q) * ((i128)r + q), sm = (i128)(r - q) * (r - q); int t = D2 > sp ? 4 : D2 == sp ? 3 : D2 > sm ? 2 : D2 == sm ? 1 : 0; if (!(a == c && r == q)) { EQ(ig::tangent_num(c1, c2), t); EQ(ig::tangent_num(c2, c1), t); CKM(ig::has_cross_point(c1, c2) == (t == 2), "circles cross"); } CKM(ig::has_common_point(c1, c2) == (t >= 1 && t <= 3), "circles meet"); EQ(code(ig::contains(c1, E)), d2(a, e) > (i128)r * r ? 0 : d2(a, e) == (i128)r * r ? 1 : 2); }
    g.nontrivial(cr(a, b, c) == 0 || inter); }

PBT(closest, 6000, "at least 9 distinct points", 8, 15) { int mode = g.raw(5), n = g.coin() ? g.in(1, 12) : g.len(1, 70); auto v = gps(g, n, mode); if (g.coin()) v = uniq(v), g.shuffle(v); n = v.size(); g.note(v); std::vector<Point> vp; for (auto& p : v) vp.push_back(mkp(p)); i128 best = -1; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { i128 d = d2(v[i], v[j]); if (best < 0 || d < best) best = d; } auto [a, b] = ig::closest_pair(vp); Pt pa{ a.x, a.y }, pb{ b.x, b.y }; auto c = [&](const Pt& p) { return std::count(v.begin(), v.end(), p); }; if (n == 1) { CKM(pa == v[0] && pb == v[0], "a single point is its own pair"); return; } CKM(c(pa) >= 1 && c(pb) >= 1 && (pa != pb || c(pa) >= 2), "pair of input points"); CKM(d2(pa, pb) == best, "closest distance"); g.nontrivial(uniq(v).size() >= 9); }

PBT(hull_and_polygon, 6000, "at least 3 hull vertices and a coordinate above 2^16", 8, 15) { int mode = g.raw(5), n = g.coin() ? g.in(1, 8) : g.len(1, 30); auto v = gps(g, n, mode); g.note(v); auto want = hull(v); auto d = uniq(v); std::vector<Point> vp; for (auto& p : v) vp.push_back(mkp(p)); bool big = false; for (auto& p : v) big |= std::abs(p.first) > 65536; bool full = want.size() >= 3 && cr(want[0], want[1], want.back()) != 0; for (size_t i = 0; i + 2 < want.size() && !full; ++i) full |= cr(want[0], want[1], want[i + 2]) != 0;
    i128 far = 0; for (auto& a : v) for (auto& b : v) far = std::max(far, d2(a, b)); auto q = ig::farthest_pair<Point, ig::multiplied_t>(vp); Pt qa{ q.first.x, q.first.y }, qb{ q.second.x, q.second.y }; CKM(std::binary_search(d.begin(), d.end(), qa) && std::binary_search(d.begin(), d.end(), qb), "farthest pair consists of input points"); CKM(d2(qa, qb) == far, "farthest pair");
    if (d.size() == v.size()) { auto ids = ig::convex_hull<Point, ig::multiplied_t>(vp); std::vector<Pt> r; for (int i : ids) r.push_back(v[i]); CKM(r == want, "hull"); }
    ig::Polygon h; for (auto& p : want) h.push_back(mkp(p)); std::rotate(h.begin(), h.begin() + g.raw(h.size()), h.end()); auto [i, j] = ig::convex_diameter(h); CKM(d2({ h[i].x, h[i].y }, { h[j].x, h[j].y }) == far, "convex diameter"); if (full) { CKM(ig::is_convex(h), "a hull is convex"); i128 s = 0; int m = want.size(); for (int t = 0; t < m; ++t) s += cr({ 0, 0 }, want[t], want[(t + 1) % m]); CKM((i128)ig::signed_area_doubled(h) == s && (i128)ig::area_doubled(h) == s, "area"); std::reverse(h.begin(), h.end()); CKM((i128)ig::signed_area_doubled(h) == -s && (i128)ig::area_doubled(h) == s, "area, clockwise"); CKM(!ig::is_convex(h), "a clockwise polygon is not convex here");
        for (int t = 0; t < 8; ++t) { Pt p = t < 2 ? v[g.raw(n)] : gp(g, mode); if (t > 4) { auto a = want[g.raw(m)], b = want[g.raw(m)]; p = { a.first / 2 + b.first / 2 + g.in(-1, 1), a.second / 2 + b.second / 2 + g.in(-1, 1) }; } EQ(code(ig::contains(h, mkp(p))), inhull(want, p)); } }
    auto w = vp; ig::sort_points_by_argument<Point, ig::multiplied_t>(w); auto key = [](const Point& p) { return p.y < 0 ? 0 : p.y == 0 ? (p.x >= 0 ? 1 : 3) : 2; }; for (int t = 1; t < n; ++t) { int ka = key(w[t - 1]), kb = key(w[t]); CKM(ka <= kb, "order by angle class"); if (ka == kb && (ka == 0 || ka == 2)) CKM(cr({ 0, 0 }, { w[t - 1].x, w[t - 1].y }, { w[t].x, w[t].y }) >= 0, "order by angle"); }
    g.nontrivial(full && big); }
