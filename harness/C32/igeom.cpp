// Exact integer geometry against 128-bit oracles.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <tuple>
#include <vector>
#include "library/integral_geom/point.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
using namespace hv;
namespace ig = suisen::integral_geometry;
using Pt = std::pair<i64, i64>;
using ig::Point; using ig::Inclusion;
static Point mkp(const Pt& p) { return Point(p.first, p.second); }
static i128 cr(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.second - o.second) - (i128)(a.second - o.second) * (b.first - o.first); }
static i128 dt(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.first - o.first) + (i128)(a.second - o.second) * (b.second - o.second); }
static i128 d2(const Pt& a, const Pt& b) { return dt(a, b, b); }
static int sg(i128 x) { return x < 0 ? -1 : x > 0; }
static i64 coord(Gen& g, int mode) { switch (mode) { case 0: return g.in(-2, 2); case 1: return g.in(-6, 6); case 2: return g.in(-1000, 1000); case 3: return g.in(-1000000000, 1000000000); default: return g.chance(1, 3) ? (g.coin() ? 1000000000 : -1000000000) + g.in(-1, 1) * 0 : g.in(-1000000000, 1000000000); } }
static Pt gp(Gen& g, int mode) { i64 x = coord(g, mode); return { x, coord(g, mode) }; }
static std::vector<Pt> gps(Gen& g, int n, int mode) { std::vector<Pt> v(n); int shape = g.raw(6); i64 dx = g.in(-3, 3), dy = g.in(-3, 3), lim = mode == 0 ? 3 : 100; for (auto& p : v) { if (shape == 0) { i64 t = g.in(-(int)lim, (int)lim); p = { dx * t + 1, dy * t - 2 }; } else if (shape == 1) { p = gp(g, mode); p.first = std::clamp<i64>(p.first, 0, 3); } else p = gp(g, mode); } return v; }
static std::vector<Pt> uniq(std::vector<Pt> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static bool on_seg(const Pt& a, const Pt& b, const Pt& p) { return cr(a, b, p) == 0 && dt(p, a, b) <= 0; }
// all input points on the boundary of the convex hull, counter-clockwise from the lexicographic minimum (distinct points)
static std::vector<Pt> hull(std::vector<Pt> v) { v = uniq(v); int n = v.size(); if (n <= 2) return v; bool col = true; for (auto& p : v) col &= cr(v[0], v.back(), p) == 0; if (col) return v; std::vector<Pt> lo, up; for (auto& p : v) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), p) < 0) lo.pop_back(); lo.push_back(p); } for (int i = n - 1; i >= 0; --i) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), v[i]) < 0) up.pop_back(); up.push_back(v[i]); } lo.pop_back(); up.pop_back(); lo.insert(lo.end(), up.begin(), up.end()); return lo; }
static int inhull(const std::vector<Pt>& h, const Pt& p) { int n = h.size(); if (n == 1) return p == h[0] ? 1 : 0; bool col = true; for (auto& q : h) col &= cr(h[0], h[n - 1], q) == 0; if (col) { Pt a = *std::min_element(h.begin(), h.end()), b = *std::max_element(h.begin(), h.end()); return on_seg(a, b, p); } bool on = false; for (int i = 0; i < n; ++i) { i128 c = cr(h[i], h[(i + 1) % n], p); if (c < 0) return 0; on |= c == 0; } return on ? 1 : 2; }
static int code(Inclusion x) { return x == Inclusion::OUT ? 0 : x == Inclusion::ON ? 1 : 2; }

PBT(hull, 20000, "at least 3 points not all collinear", 8, 15) { int mode = g.raw(5), n = g.coin() ? g.in(1, 8) : g.len(1, 30); auto v = gps(g, n, mode); g.note(v); auto want = hull(v); auto d = uniq(v); g.nontrivial(want.size() >= 3 && cr(want[0], want[1], want.back()) != 0);
    std::vector<Point> vp; std::vector<std::pair<int, int>> vi; for (auto& p : v) vp.push_back(mkp(p)), vi.push_back({ (int)p.first, (int)p.second });
    auto chk = [&](std::vector<int> ids, const char* w) { std::vector<Pt> r; std::set<int> s; for (int i : ids) { CKM(0 <= i && i < n && s.insert(i).second, "distinct indices"); r.push_back(v[i]); } if (d.size() == v.size()) { CKM(r == want, w); } else { auto a = uniq(r), b = uniq(want); CKM(a == b, w); if (want.size() >= 3 && cr(want[0], want[1], want.back()) != 0) CKM(r == want, w); } };
    chk(ig::convex_hull<Point>(vp), "hull of Points"); chk(ig::convex_hull<Pt>(v), "hull of pairs"); if (mode != 3 && mode != 4) chk(ig::convex_hull<std::pair<int, int>>(vi), "hull of int pairs"); chk((ig::convex_hull<Pt, __int128>(v)), "hull with 128-bit products");
    i128 far = 0; for (auto& a : v) for (auto& b : v) far = std::max(far, d2(a, b)); auto q = ig::farthest_pair<Point>(vp); Pt qa{ q.first.x, q.first.y }, qb{ q.second.x, q.second.y }; CKM(std::binary_search(d.begin(), d.end(), qa) && std::binary_search(d.begin(), d.end(), qb), "farthest pair consists of input points"); CKM(d2(qa, qb) == far, "farthest pair"); { auto e = ig::farthest_pair<Pt>(v); CKM(d2(e.first, e.second) == far, "farthest pair of pairs"); }
    { ig::Polygon h; for (auto& p : want) h.push_back(mkp(p)); int rot = g.raw(h.size()); std::rotate(h.begin(), h.begin() + rot, h.end()); auto [i, j] = ig::convex_diameter(h); CKM(0 <= i && i < (int)h.size() && 0 <= j && j < (int)h.size(), "diameter indices"); CKM((i128)ig::square_abs(h[i] - h[j]) == far, "convex diameter"); if (want.size() >= 3 && cr(want[0], want[1], want.back()) != 0) { CKM(ig::is_convex(h), "a hull is convex"); bool strict = true; int m = h.size(); for (int t = 0; t < m; ++t) strict &= cr(want[t], want[(t + 1) % m], want[(t + 2) % m]) > 0; CKM(ig::is_convex<false>(h) == strict, "strictly convex"); } }
    ig::ConvexHullInclusion<Pt> inc(want); std::vector<Pt> rep = want; if (g.coin()) { int rot = g.raw(rep.size()); std::rotate(rep.begin(), rep.begin() + rot, rep.end()); } if (g.coin()) rep.insert(rep.begin() + g.raw(rep.size()), rep[0]), rep.clear(), rep = want, rep.push_back(rep[0]); ig::ConvexHullInclusion<std::tuple<long long, long long>> inc2([&] { std::vector<std::tuple<long long, long long>> t; for (auto& p : rep) t.emplace_back(p.first, p.second); return t; }());
    for (int t = 0; t < 12; ++t) { Pt p = t < 3 ? v[g.raw(v.size())] : gp(g, mode); if (g.chance(1, 3)) { auto& a = want[g.raw(want.size())]; auto& b = want[g.raw(want.size())]; p = { (a.first + b.first) / 2 + g.in(-1, 1), (a.second + b.second) / 2 + g.in(-1, 1) }; } g.note(" q", p); int w = inhull(want, p); EQ(code(inc(p)), w); EQ(code(inc(p.first, p.second)), w); EQ(code(inc2(std::make_tuple(p.first, p.second))), w); } }

PBT(huge_coordinates, 3000, "at least 3 hull vertices", 8, 15) { int n = g.len(1, 12); std::vector<Pt> v(n); const i64 M = 2000000000000000000LL; for (auto& p : v) p = { g.range(-M, M), g.range(-M, M) }; if (g.coin()) for (auto& p : v) p = { g.pick({ (int)-1, 0, 1 }) * M + g.in(-1, 1), g.pick({ (int)-1, 0, 1 }) * M + g.in(-1, 1) }; g.note(v); auto want = hull(v); if (uniq(v).size() == v.size()) { auto ids = ig::convex_hull<Pt, __int128>(v); std::vector<Pt> r; for (int i : ids) r.push_back(v[i]); CKM(r == want, "hull, 128-bit products"); } ig::ConvexHullInclusion<Pt> inc(want); for (int t = 0; t < 10; ++t) { Pt p = t < 3 ? v[g.raw(n)] : Pt{ g.range(-M, M), g.range(-M, M) }; EQ(code(inc(p)), inhull(want, p)); } g.nontrivial(want.size() >= 3); }

PBT(closest, 15000, "at least 9 distinct points", 8, 15) { int mode = g.raw(5), n = g.coin() ? g.in(1, 12) : g.len(1, 70); auto v = gps(g, n, mode); if (g.coin()) v = uniq(v), g.shuffle(v); n = v.size(); g.note(v); std::vector<Point> vp; for (auto& p : v) vp.push_back(mkp(p)); i128 best = -1; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { i128 d = d2(v[i], v[j]); if (best < 0 || d < best) best = d; } auto [a, b] = ig::closest_pair(vp); Pt pa{ a.x, a.y }, pb{ b.x, b.y }; auto c = [&](const Pt& p) { return std::count(v.begin(), v.end(), p); }; if (n == 1) { CKM(pa == v[0] && pb == v[0], "a single point is its own pair"); return; } CKM(c(pa) >= 1 && c(pb) >= 1 && (pa != pb || c(pa) >= 2), "pair of input points"); CKM(d2(pa, pb) == best, "closest distance"); g.nontrivial(uniq(v).size() >= 9); }

PBT(relations, 40000, "collinear triple or touching segments") { int mode = g.raw(5); Pt a = gp(g, mode), b = gp(g, mode), c = gp(g, mode), d = gp(g, mode), e = gp(g, mode); if (g.chance(1, 3)) { i64 t = g.in(-2, 3); if (mode < 3) c = { a.first + (b.first - a.first) * t, a.second + (b.second - a.second) * t }; } if (a == b) b.first += b.first < 1000000000 ? 1 : -1; if (c == d) d.second += d.second < 1000000000 ? 1 : -1; g.note(a, b, c, d, e); auto A = mkp(a), B = mkp(b), C = mkp(c), D = mkp(d), E = mkp(e);
    int is = ig::isp(A, B, C); { i128 x = cr(a, b, c); int w = x > 0 ? 1 : x < 0 ? -1 : dt(a, b, c) < 0 ? -2 : dt(b, a, c) < 0 ? 2 : 0; EQ(is, w); }
    i128 sa = cr(a, b, c); CKM((i128)ig::signed_area_doubled(A, B, C) == sa, "signed triangle area"); CKM((i128)ig::area_doubled(A, B, C) == (sa < 0 ? -sa : sa), "triangle area"); Pt z{ 0, 0 }; CKM((i128)ig::dot(A, B) == dt(z, a, b) && (i128)ig::det(A, B) == cr(z, a, b) && (i128)ig::square_abs(A) == d2(z, a), "dot, det, norm"); EQ(ig::compare(a.first, b.first), sg((i128)a.first - b.first)); EQ(ig::sgn(a.first), sg(a.first)); CKM(std::abs(ig::abs(A) - std::hypot((double)a.first, (double)a.second)) <= 1e-6 * (1 + std::hypot((double)a.first, (double)a.second)) && std::abs(ig::arg(A) - std::atan2((double)a.second, (double)a.first)) < 1e-9, "abs, arg");
    Pt u{ b.first - a.first, b.second - a.second }, w{ d.first - c.first, d.second - c.second }; bool par = cr(z, u, w) == 0, ort = dt(z, u, w) == 0; ig::Line l1(A, B), l2(C, D); ig::Ray r1(A, B), r2(C, D); ig::Segment s1(A, B), s2(C, D); bool same = par && cr(a, b, c) == 0;
    CKM(ig::is_parallel(l1, l2) == par && ig::is_parallel(s1, r2) == par, "parallel"); CKM(ig::is_orthogonal(l1, l2) == ort && ig::is_orthogonal(r1, s2) == ort, "orthogonal"); CKM(ig::on_the_same_line(l1, s2) == same && (l1 == l2) == same, "same line"); CKM((r1 == r2) == (a == c && same && dt(z, u, w) > 0), "equal rays"); CKM(r1 == ig::Ray(A, B) && !(r1 == ig::Ray(A, A - (B - A))), "opposite rays differ"); CKM((s1 == s2) == ((a == c && b == d) || (a == d && b == c)) && s1 == ig::Segment(B, A), "equal segments");
    for (Pt p : { c, e }) { Point Q = mkp(p); bool ol = cr(a, b, p) == 0; EQ(code(ig::contains(l1, Q)), (int)ol); EQ(code(ig::contains(r1, Q)), (int)(ol && dt(a, b, p) >= 0)); EQ(code(ig::contains(s1, Q)), (int)(ol && dt(p, a, b) <= 0)); }
    bool inter; { int o1 = sg(cr(a, b, c)), o2 = sg(cr(a, b, d)), o3 = sg(cr(c, d, a)), o4 = sg(cr(c, d, b)); inter = (o1 * o2 < 0 && o3 * o4 < 0) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b); } CKM(ig::has_common_point(s1, s2) == inter && ig::has_common_point(s2, s1) == inter, "segments meet"); CKM(ig::has_common_point(s1, ig::Segment(E, E)) == on_seg(a, b, e), "segment meets a point");
    i64 R = mode < 3 ? 15 : 1000000000; i64 r = g.range(1, R), q = g.chance(1, 3) ? r : g.range(1, R); i128 D2 = d2(a, c); { ig::Circle c1(A, r), c2(C, q); i128 sp = (i128)(r + q) * (r + q), sm = (i128)(r - q) * (r - q); int t = D2 > sp ? 4 : D2 == sp ? 3 : D2 > sm ? 2 : D2 == sm ? 1 : 0; if (!(a == c && r == q)) { EQ(ig::tangent_num(c1, c2), t); EQ(ig::tangent_num(c2, c1), t); CKM(ig::has_cross_point(c1, c2) == (t == 2), "circles cross"); } CKM(ig::has_common_point(c1, c2) == (t >= 1 && t <= 3), "circles meet"); EQ(code(ig::contains(c1, E)), d2(a, e) > (i128)r * r ? 0 : d2(a, e) == (i128)r * r ? 1 : 2); }
    g.nontrivial(cr(a, b, c) == 0 || inter); }

PBT(point_arithmetic, 10000, "always") { int mode = g.raw(3); Pt a = gp(g, mode), b = gp(g, mode); i64 k = coord(g, mode); Point A = mkp(a), B = mkp(b); auto is = [&](const Point& p, i64 x, i64 y) { return p.x == x && p.y == y; }; g.note(a, b, k); CKM(is(+A, a.first, a.second) && is(-A, -a.first, -a.second), "unary"); CKM(is(A + B, a.first + b.first, a.second + b.second) && is(A - B, a.first - b.first, a.second - b.second), "add, subtract"); i64 mx = a.first * b.first - a.second * b.second, my = a.first * b.second + a.second * b.first; CKM(is(A * B, mx, my), "complex product"); CKM(is(A + k, a.first + k, a.second) && is(A - k, a.first - k, a.second) && is(A * k, a.first * k, a.second * k), "with a real"); CKM(is(k + A, a.first + k, a.second) && is(k - A, k - a.first, -a.second) && is(k * A, k * a.first, k * a.second), "real on the left"); if (k) CKM(is(A / k, a.first / k, a.second / k), "division");
    { Point x = A; x += B; CKM(x == A + B, "+="); x -= B; CKM(x == A, "-="); x *= B; CKM(is(x, mx, my), "*="); x = A; x += k; CKM(x == A + k, "+= real"); x -= k; CKM(x == A, "-= real"); x *= k; CKM(x == A * k, "*= real"); if (k) { x /= k; CKM(x == A, "/= real"); } } CKM((A == B) == (a == b) && (A != B) == (a != b), "equality"); CKM(is(ig::conj(A), a.first, -a.second) && is(ig::cartesian(a.first, a.second), a.first, a.second), "conj, cartesian"); CKM(ig::XY_COMPARATOR(A, B) == (a < b) && ig::XY_COMPARATOR_GREATER(A, B) == (a > b), "xy order"); Pt ra{ a.second, a.first }, rb{ b.second, b.first }; CKM(ig::YX_COMPARATOR(A, B) == (ra < rb) && ig::YX_COMPARATOR_GREATER(A, B) == (ra > rb), "yx order");
    { std::pair<long long, long long> q = A; CKM(q == std::make_pair((long long)a.first, (long long)a.second), "to pair"); Point x; x = b; CKM(x == B, "from pair"); auto [u, w] = A; CKM(u == a.first && w == a.second && A.get<0>() == a.first && A.get<1>() == a.second, "structured binding"); x.get<0>() = 7; CKM(x.x == 7, "get reference"); std::stringstream ss; ss << A; Point y; ss >> y; CKM(y == A, "stream round trip"); } g.nontrivial(true); }

// simple polygons: star-shaped around the origin (sorted by angle), either orientation
static std::vector<Pt> star(Gen& g, int n, int R) { std::vector<Pt> v; for (int i = 0; i < n; ++i) { Pt p{ g.in(-R, R), g.in(-R, R) }; if (p.first || p.second) v.push_back(p); } auto half = [](const Pt& p) { return p.second < 0 || (p.second == 0 && p.first < 0); }; Pt z{ 0, 0 }; std::sort(v.begin(), v.end(), [&](const Pt& a, const Pt& b) { if (half(a) != half(b)) return half(a) < half(b); return cr(z, a, b) > 0; }); std::vector<Pt> r; for (auto& p : v) if (r.empty() || cr(z, r.back(), p) != 0 || dt(z, r.back(), p) < 0) r.push_back(p); int m = r.size(); if (m < 3) return {}; for (int i = 0; i < m; ++i) if (cr(z, r[i], r[(i + 1) % m]) <= 0) return {}; return r; }
PBT(polygons, 8000, "polygon with at least 3 vertices") { int R = g.pick({ 2, 5, 12 }); auto v = star(g, g.in(3, 12), R); if (v.empty()) return; Pt off{ g.in(-5, 5), g.in(-5, 5) }; for (auto& p : v) p.first += off.first, p.second += off.second; bool cw = g.coin(); if (cw) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + g.raw(v.size()), v.end()); int n = v.size(); g.note(v); ig::Polygon poly; for (auto& p : v) poly.push_back(mkp(p)); i128 s = 0; for (int i = 0; i < n; ++i) s += cr({ 0, 0 }, v[i], v[(i + 1) % n]); CKM((i128)ig::signed_area_doubled(poly) == s && (i128)ig::area_doubled(poly) == (s < 0 ? -s : s), "polygon area");
    i64 cnt = 0; for (int x = -R - 6; x <= R + 6; ++x) for (int y = -R - 6; y <= R + 6; ++y) { Pt p{ x, y }; int w; bool on = false; for (int i = 0; i < n; ++i) on |= on_seg(v[i], v[(i + 1) % n], p); if (on) w = 1; else { int wn = 0; for (int i = 0; i < n; ++i) { auto a = v[i], b = v[(i + 1) % n]; if (a.second <= y && b.second > y && cr(a, b, p) > 0) ++wn; if (a.second > y && b.second <= y && cr(a, b, p) < 0) --wn; } w = wn ? 2 : 0; } cnt += w != 0; if (g.chance(1, 3) || w == 1) EQ(code(ig::contains(poly, mkp(p))), w); }
    EQ((i64)ig::count_lattice_points<Point>(poly), cnt); { std::vector<std::pair<int, int>> vi; for (auto& p : v) vi.push_back({ (int)p.first, (int)p.second }); EQ((i64)(ig::count_lattice_points<std::pair<int, int>>(vi)), cnt); } if (!cw) { bool ok = true, st = true; for (int i = 0; i < n; ++i) { i128 c = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); ok &= c >= 0; st &= c > 0; } CKM(ig::is_convex(poly) == ok && ig::is_convex<false>(poly) == st, "convexity"); } g.nontrivial(true); }
PBT(lattice_count_degenerate, 2000, "two different points") { int mode = g.raw(5); Pt a = gp(g, mode), b = g.chance(1, 4) ? a : gp(g, mode); i64 gg = std::gcd(std::abs(a.first - b.first), std::abs(a.second - b.second)); EQ((i64)(ig::count_lattice_points<Pt>({ a, b })), gg + 1); EQ((i64)ig::count_lattice_points<Pt>({ a }), (i64)1); g.nontrivial(a != b); }

PBT(sort_by_argument, 10000, "at least 5 points in at least 3 quadrants", 8, 15) { int mode = g.raw(5), n = g.coin() ? g.in(0, 12) : g.len(0, 60); std::vector<Pt> v(n); bool zeros = g.chance(1, 4); for (auto& p : v) p = zeros && g.chance(3, 4) ? Pt{ 0, 0 } : gp(g, mode); g.note(v); auto key = [](const Pt& p) { return p.second < 0 ? 0 : (p.first == 0 && p.second == 0) ? 1 : (p.second == 0 && p.first > 0) ? 1 : (p.second == 0) ? 3 : 2; }; auto w = v; std::vector<Point> vp; for (auto& p : v) vp.push_back(mkp(p)); ig::sort_points_by_argument(w); ig::sort_points_by_argument(vp); std::set<int> quad; for (auto& p : v) quad.insert((p.first < 0) * 2 + (p.second < 0)); auto chk = [&](const std::vector<Pt>& r) { auto x = r, y = v; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); CKM(x == y, "a permutation of the input"); for (size_t i = 1; i < r.size(); ++i) { int ka = key(r[i - 1]), kb = key(r[i]); CKM(ka <= kb, "order by angle class"); if (ka == kb && (ka == 0 || ka == 2)) CKM(cr({ 0, 0 }, r[i - 1], r[i]) >= 0, "order by angle"); } }; chk(w); std::vector<Pt> r; for (auto& p : vp) r.push_back({ p.x, p.y }); chk(r); for (int t = 0; t < 5 && n; ++t) { auto& a = v[g.raw(n)]; CKM(!ig::compare_by_atan2(a, a), "the comparison is irreflexive"); auto& b = v[g.raw(n)]; CKM(!(ig::compare_by_atan2(a, b) && ig::compare_by_atan2(b, a)), "the comparison is asymmetric"); } g.nontrivial(n >= 5 && quad.size() >= 3); }
