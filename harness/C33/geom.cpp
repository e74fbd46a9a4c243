// Floating-point plane geometry on small integer configurations: exact predicates from
// integer arithmetic, constructions from their defining equations (tolerance 1e-7).
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <numeric>
#include <set>
#include <variant>
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
using namespace hv;
namespace ge = suisen::geometry;
using ld = long double; using Pt = std::pair<i64, i64>; using ge::Point; using ge::Containment; using ge::Circle; using ge::Line; using ge::Ray; using ge::Segment; using ge::Polygon;
static Point mkp(const Pt& p) { return Point((ld)p.first, (ld)p.second); }
static i64 cr(const Pt& o, const Pt& a, const Pt& b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static i64 dt(const Pt& o, const Pt& a, const Pt& b) { return (a.first - o.first) * (b.first - o.first) + (a.second - o.second) * (b.second - o.second); }
static i64 d2(const Pt& a, const Pt& b) { return dt(a, b, b); }
static bool on_seg(const Pt& a, const Pt& b, const Pt& p) { return cr(a, b, p) == 0 && dt(p, a, b) <= 0; }
static bool near(ld a, ld b, ld sc = 1) { return std::abs(a - b) <= 1e-7L * std::max((ld)1, sc); }
static bool nearp(Point a, Point b, ld sc = 1) { return near(a.real(), b.real(), sc) && near(a.imag(), b.imag(), sc); }
static ld cross(Point a, Point b) { return a.real() * b.imag() - a.imag() * b.real(); }
static ld dotp(Point a, Point b) { return a.real() * b.real() + a.imag() * b.imag(); }
static ld len(Point a) { return std::sqrt(a.real() * a.real() + a.imag() * a.imag()); }
static int lim(Gen& g) { return g.pick({ 2, 4, 10, 100, 1000 }); }
static Pt gp(Gen& g, int R) { i64 x = g.in(-R, R); return { x, (i64)g.in(-R, R) }; }
static int code(Containment c) { return c == Containment::OUT ? 0 : c == Containment::ON ? 1 : 2; }
// distance from p to the segment / ray / line (a, b) with exact case analysis
static ld dseg(const Pt& p, const Pt& a, const Pt& b, int kind) { i64 t = dt(a, b, p), L = d2(a, b); if (kind >= 1 && t <= 0) return std::sqrt((ld)d2(p, a)); if (kind == 2 && t >= L) return std::sqrt((ld)d2(p, b)); return std::abs((ld)cr(a, b, p)) / std::sqrt((ld)L); }

PBT(predicates_and_distances, 30000, "a collinear triple or crossing segments") { int R = lim(g); Pt a = gp(g, R), b = gp(g, R), c = gp(g, R), d = gp(g, R); if (g.chance(1, 3)) { i64 t = g.in(-2, 3); c = { a.first + (b.first - a.first) * t, a.second + (b.second - a.second) * t }; } if (a == b) b.first++; if (c == d) d.second++; if (g.chance(1, 8)) { d = { c.first + 2 * (b.first - a.first), c.second + 2 * (b.second - a.second) }; } g.note(a, b, c, d); Point A = mkp(a), B = mkp(b), C = mkp(c), D = mkp(d);
    { i64 x = cr(a, b, c); EQ(ge::isp(A, B, C), x > 0 ? 1 : x < 0 ? -1 : dt(a, b, c) < 0 ? -2 : dt(b, a, c) < 0 ? 2 : 0); } CKM(near(ge::signed_area(A, B, C), cr(a, b, c) / 2.0L) && near(ge::area(A, B, C), std::abs(cr(a, b, c)) / 2.0L), "triangle area"); EQ(ge::sgn((ld)a.first), a.first < 0 ? -1 : a.first > 0); EQ(ge::compare((ld)a.first, (ld)b.first), a.first < b.first ? -1 : a.first > b.first); CKM(ge::equals(A, C) == (a == c) && ge::equals((ld)a.first, (ld)c.first) == (a.first == c.first), "equals");
    Pt z{ 0, 0 }, u{ b.first - a.first, b.second - a.second }, w{ d.first - c.first, d.second - c.second }; bool par = cr(z, u, w) == 0, ort = dt(z, u, w) == 0, same = par && cr(a, b, c) == 0; Line l1(A, B), l2(C, D); Ray r1(A, B), r2(C, D); Segment s1(A, B), s2(C, D);
    CKM(ge::is_parallel(l1, l2) == par && ge::is_parallel(s1, r2) == par && ge::is_orthogonal(l1, l2) == ort && ge::is_orthogonal(r1, s2) == ort && ge::on_the_same_line(l1, s2) == same, "parallel, orthogonal, same line"); CKM(ge::equals(l1, l2) == same && ge::equals(r1, r2) == (same && a == c && dt(z, u, w) > 0) && ge::equals(s1, s2) == ((a == c && b == d) || (a == d && b == c)), "equality of lines, rays, segments"); CKM(!ge::equals(r1, Ray(A, A - (B - A))) && ge::equals(r1, Ray(A, A + (B - A) * (ld)2)), "rays differ when opposite");
    { Point h = ge::projection(C, l1), q = ge::reflection(C, s1); CKM(std::abs(cross(B - A, h - A)) <= 1e-7L * (1 + len(B - A)) && std::abs(dotp(B - A, h - C)) <= 1e-7L * (1 + len(B - A)), "projection"); CKM(nearp((q + C) / (ld)2, h, R) , "reflection"); }
    ld ls = dseg(c, a, b, 2), lr = dseg(c, a, b, 1), ll = dseg(c, a, b, 0); CKM(near(ge::distance(C, s1), ls, R) && near(ge::distance(s1, C), ls, R) && near(ge::square_distance(C, s1), ls * ls, ls * ls), "point-segment distance"); CKM(near(ge::distance(C, r1), lr, R) && near(ge::distance(r1, C), lr, R) && near(ge::square_distance(r1, C), lr * lr, lr * lr), "point-ray distance"); CKM(near(ge::distance(C, l1), ll, R) && near(ge::distance(l1, C), ll, R) && near(ge::square_distance(C, l1), ll * ll, ll * ll), "point-line distance");
    bool ol = cr(a, b, c) == 0; EQ(code(ge::contains(l1, C)), (int)ol); EQ(code(ge::contains(r1, C)), (int)(ol && dt(a, b, c) >= 0)); EQ(code(ge::contains(s1, C)), (int)on_seg(a, b, c));
    auto sg = [](i64 x) { return x < 0 ? -1 : x > 0; }; bool prop = sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0; bool inter = prop || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b); CKM(ge::has_common_point(s1, s2) == inter, "segments meet"); ld dd = inter ? 0 : std::min({ dseg(c, a, b, 2), dseg(d, a, b, 2), dseg(a, c, d, 2), dseg(b, c, d, 2) }); CKM(near(ge::distance(s1, s2), dd, R) && near(ge::square_distance(s1, s2), dd * dd, dd * dd), "segment-segment distance");
    auto cp = ge::common_point(s1, s2); if (!inter) CKM(cp.index() == 0, "no common point"); else if (!par) { CKM(cp.index() == 1, "one common point"); Point q = std::get<1>(cp); CKM(std::abs(cross(B - A, q - A)) <= 1e-7L * (1 + len(B - A)) && std::abs(cross(D - C, q - C)) <= 1e-7L * (1 + len(D - C)), "the common point is on both lines"); } else { std::vector<Pt> v{ a, b, c, d }; std::sort(v.begin(), v.end()); if (v[1] == v[2]) { CKM(cp.index() == 1 && nearp(std::get<1>(cp), mkp(v[1])), "touching collinear segments"); } else { CKM(cp.index() == 2, "overlapping segments"); auto s = std::get<2>(cp); CKM((nearp(s.a, mkp(v[1])) && nearp(s.b, mkp(v[2]))) || (nearp(s.b, mkp(v[1])) && nearp(s.a, mkp(v[2]))), "overlap"); } }
    { i64 p = g.in(-9, 9), q = g.in(-9, 9), k = g.in(-20, 20); if (p || q) { Line m((ld)p, (ld)q, (ld)k); for (Point t : { m.a, m.b }) CKM(near(p * t.real() + q * t.imag() + k, 0), "line from coefficients"); CKM(len(m.a - m.b) > 0.5, "line from coefficients has two points"); } } g.nontrivial(ol || inter); }

PBT(triangles, 8000, "always") { int R = lim(g); Pt a = gp(g, R), b = gp(g, R), c = gp(g, R); if (cr(a, b, c) == 0) return; g.note(a, b, c); Point A = mkp(a), B = mkp(b), C = mkp(c); ld sc = (ld)R * R; auto dist = [&](const Pt& x, const Pt& y, Point p) { return std::abs(cross(mkp(y) - mkp(x), p - mkp(x))) / len(mkp(y) - mkp(x)); }; CKM(nearp(ge::pG(A, B, C), (A + B + C) / (ld)3, R), "centroid");
    auto inc = ge::pI(A, B, C); CKM(near(dist(a, b, inc.center), inc.radius, sc) && near(dist(b, c, inc.center), inc.radius, sc) && near(dist(c, a, inc.center), inc.radius, sc) && inc.radius > 0, "incircle"); for (auto [x, y, o] : { std::tuple(a, b, c), std::tuple(b, c, a), std::tuple(c, a, b) }) CKM(cross(mkp(y) - mkp(x), inc.center - mkp(x)) * cr(x, y, o) > 0, "the incentre is inside");
    auto o = ge::pO(A, B, C); ld rr = o.radius, rs = std::max<ld>(sc, rr) * 10; CKM(near(len(o.center - A), rr, rs) && near(len(o.center - B), rr, rs) && near(len(o.center - C), rr, rs), "circumcircle"); Point h = ge::pH(A, B, C); CKM(near(dotp(h - A, B - C) / len(B - C), 0, rs) && near(dotp(h - B, C - A) / len(C - A), 0, rs) && near(dotp(h - C, A - B) / len(A - B), 0, rs), "orthocentre");
    auto [ea, eb, ec] = ge::pIabc(A, B, C); auto ex = [&](const Circle& e, const Pt& p, const Pt& q, const Pt& r) { ld s2 = std::max<ld>(sc, e.radius) * 10; CKM(near(dist(p, q, e.center), e.radius, s2) && near(dist(q, r, e.center), e.radius, s2) && near(dist(r, p, e.center), e.radius, s2), "excircle touches the three lines"); CKM(cross(mkp(r) - mkp(q), e.center - mkp(q)) * cr(q, r, p) < 0, "excentre on the other side of its edge"); CKM(cross(mkp(q) - mkp(p), e.center - mkp(p)) * cr(p, q, r) > 0 && cross(mkp(r) - mkp(p), e.center - mkp(p)) * cr(p, r, q) > 0, "excentre inside its angle"); }; ex(ea, a, b, c); ex(eb, b, c, a); ex(ec, c, a, b); g.nontrivial(true); }

static std::vector<Pt> uniq(std::vector<Pt> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static std::vector<Pt> hull(std::vector<Pt> v) { v = uniq(v); int n = v.size(); if (n <= 2) return v; bool col = true; for (auto& p : v) col &= cr(v[0], v.back(), p) == 0; if (col) return v; std::vector<Pt> lo, up; for (auto& p : v) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), p) < 0) lo.pop_back(); lo.push_back(p); } for (int i = n - 1; i >= 0; --i) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), v[i]) < 0) up.pop_back(); up.push_back(v[i]); } lo.pop_back(); up.pop_back(); lo.insert(lo.end(), up.begin(), up.end()); return lo; }
static ld parea(const std::vector<Point>& v) { ld s = 0; for (size_t i = 0; i < v.size(); ++i) s += cross(v[i], v[(i + 1) % v.size()]); return s / 2; }
static std::vector<Point> clip(const std::vector<Point>& v, Point a, Point b) { std::vector<Point> r; int n = v.size(); for (int i = 0; i < n; ++i) { Point p = v[i], q = v[(i + 1) % n]; ld x = cross(b - a, p - a), y = cross(b - a, q - a); if (x >= 0) r.push_back(p); if ((x > 0 && y < 0) || (x < 0 && y > 0)) r.push_back(p + (q - p) * (x / (x - y))); } return r; }

PBT(hulls_and_cuts, 12000, "at least 3 points not all collinear", 8, 15) { int R = lim(g), n = g.coin() ? g.in(1, 8) : g.len(1, 30); std::vector<Pt> v(n); bool line = g.chance(1, 8); for (auto& p : v) { p = gp(g, R); if (line) p.second = 2 * p.first + 1; } auto d = uniq(v); if (g.chance(4, 5)) v = d, g.shuffle(v); n = v.size(); g.note(v); auto want = hull(v); bool full = want.size() >= 3 && cr(want[0], want[1], want.back()) != 0; std::vector<Point> vp; for (auto& p : v) vp.push_back(mkp(p)); auto ids = ge::convex_hull(vp); std::vector<Pt> r; std::set<int> us; for (int i : ids) { CKM(0 <= i && i < n && us.insert(i).second, "distinct hull indices"); r.push_back(v[i]); } if (full || d.size() == v.size()) CKM(r == want, "hull"); else CKM(uniq(r) == uniq(want), "hull of collinear points");
    i64 far = 0, best = -1; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { i64 x = d2(v[i], v[j]); far = std::max(far, x); if (best < 0 || x < best) best = x; } { auto [p, q] = ge::closest_pair(vp); auto c = [&](Point t) { return std::count(vp.begin(), vp.end(), t); }; if (n >= 2) { CKM(c(p) >= 1 && c(q) >= 1 && (p != q || c(p) >= 2), "closest pair from the input"); CKM(near(len(p - q), std::sqrt((ld)best), R), "closest distance"); } else CKM(p == vp[0] && q == vp[0], "single point"); }
    Polygon h; for (auto& p : want) h.push_back(mkp(p)); std::rotate(h.begin(), h.begin() + g.raw(h.size()), h.end()); { auto [i, j, dist] = ge::convex_diameter(h); CKM(0 <= i && i < (int)h.size() && 0 <= j && j < (int)h.size() && near(dist, std::sqrt((ld)far), R) && near(len(h[i] - h[j]), dist, R), "diameter"); } if (full) { CKM(ge::is_convex(h), "convex"); bool st = true; int m = want.size(); for (int t = 0; t < m; ++t) st &= cr(want[t], want[(t + 1) % m], want[(t + 2) % m]) > 0; CKM(ge::is_convex<false>(h) == st, "strictly convex"); Pt a = gp(g, R), b = gp(g, R); if (g.chance(1, 4)) a = want[g.raw(m)]; if (g.chance(1, 4)) b = want[g.raw(m)]; if (a != b) { auto cut = ge::convex_cut(h, Line(mkp(a), mkp(b))); std::vector<Point> hv(h.begin(), h.end()), cv(cut.begin(), cut.end()); ld w = parea(clip(hv, mkp(a), mkp(b))); CKM(near(cv.empty() ? 0 : parea(cv), w, (ld)R * R), "area of the cut"); for (auto p : cv) CKM(cross(mkp(b) - mkp(a), p - mkp(a)) >= -1e-6L * R * R, "cut points are on the left"); for (auto& p : want) { bool in = false; for (auto q : cv) in |= nearp(q, mkp(p)); if (cr(a, b, p) >= 0) CKM(in, "kept vertices"); } } } g.nontrivial(full); }

static std::vector<Pt> star(Gen& g, int n, int R) { std::vector<Pt> v; for (int i = 0; i < n; ++i) { Pt p{ g.in(-R, R), g.in(-R, R) }; if (p.first || p.second) v.push_back(p); } auto half = [](const Pt& p) { return p.second < 0 || (p.second == 0 && p.first < 0); }; Pt z{ 0, 0 }; std::sort(v.begin(), v.end(), [&](const Pt& a, const Pt& b) { if (half(a) != half(b)) return half(a) < half(b); return cr(z, a, b) > 0; }); std::vector<Pt> r; for (auto& p : v) if (r.empty() || cr(z, r.back(), p) != 0 || dt(z, r.back(), p) < 0) r.push_back(p); int m = r.size(); if (m < 3) return {}; for (int i = 0; i < m; ++i) if (cr(z, r[i], r[(i + 1) % m]) <= 0) return {}; return r; }
// area of a circle approximated by a regular polygon of the same area, clipped to a counter-clockwise triangle
static ld disc_tri(Point c, ld r, Point a, Point b, Point o) { const int N = 3000; static std::vector<Point> unit; if (unit.empty()) { ld th = 2 * acosl(-1.0L) / N, sc = std::sqrt(th / std::sin(th)); for (int i = 0; i < N; ++i) unit.push_back(Point(std::cos(th * i) * sc, std::sin(th * i) * sc)); } ld s = 1; if (cross(b - a, o - a) < 0) std::swap(a, b), s = -1; std::vector<Point> v; for (auto p : unit) v.push_back(p * r + c); v = clip(v, a, b); v = clip(v, b, o); v = clip(v, o, a); return v.size() < 3 ? 0 : s * parea(v); }
PBT(polygons, 800, "polygon with at least 3 vertices") { int R = g.pick({ 2, 5, 12 }); auto v = star(g, g.in(3, 10), R); if (v.empty()) return; Pt off{ g.in(-5, 5), g.in(-5, 5) }; for (auto& p : v) p.first += off.first, p.second += off.second; bool cw = g.coin(); if (cw) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + g.raw(v.size()), v.end()); int n = v.size(); g.note(v); Polygon poly; for (auto& p : v) poly.push_back(mkp(p)); i64 s = 0; for (int i = 0; i < n; ++i) s += cr({ 0, 0 }, v[i], v[(i + 1) % n]); CKM(near(ge::signed_area(poly), s / 2.0L) && near(ge::area(poly), std::abs(s) / 2.0L), "polygon area");
    for (int x = -R - 6; x <= R + 6; ++x) for (int y = -R - 6; y <= R + 6; ++y) { Pt p{ x, y }; int w; bool on = false; for (int i = 0; i < n; ++i) on |= on_seg(v[i], v[(i + 1) % n], p); if (on) w = 1; else { int wn = 0; for (int i = 0; i < n; ++i) { auto a = v[i], b = v[(i + 1) % n]; if (a.second <= y && b.second > y && cr(a, b, p) > 0) ++wn; if (a.second > y && b.second <= y && cr(a, b, p) < 0) --wn; } w = wn ? 2 : 0; } if (g.chance(1, 3) || w == 1) EQ(code(ge::contains(poly, mkp(p))), w); }
    if (!cw) { bool ok = true, st = true; for (int i = 0; i < n; ++i) { i64 c = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); ok &= c >= 0; st &= c > 0; } CKM(ge::is_convex(poly) == ok && ge::is_convex<false>(poly) == st, "convexity"); }
    Pt c = gp(g, R + 5); ld r = g.coin() ? (ld)g.in(1, R + 3) : g.in(1, 4 * R) / 3.0L; if (g.chance(1, 4)) { c = v[g.raw(n)]; } if (g.chance(1, 4)) r = std::sqrt((ld)std::max<i64>(1, d2(c, v[g.raw(n)]))); g.note(" circle ", c, " ", (double)r); ld w = 0; for (int i = 0; i < n; ++i) w += disc_tri(mkp(c), r, mkp(v[i]), mkp(v[(i + 1) % n]), mkp(off)); ld got = ge::intersection_area(poly, Circle(mkp(c), r)); CKM(std::abs(got - w) <= 2e-4L * (1 + r * r), "area of polygon and circle, got " + std::to_string((double)got) + " want " + std::to_string((double)w)); g.nontrivial(true); }

PBT(circles, 20000, "circles with at least one common tangent") { int R = g.pick({ 3, 8, 30, 300 }); Pt a = gp(g, R), b = gp(g, R), e = gp(g, R), f = gp(g, R); i64 r = g.in(1, R), s = g.chance(1, 4) ? r : g.in(1, R); if (g.chance(1, 4)) { static const int T[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 1, 0, 1 }, { 0, 2, 2 } }; auto& t = T[g.raw(5)]; b = { a.first + t[0], a.second + t[1] }; s = g.coin() ? std::max<i64>(1, t[2] - r) : r + t[2]; } g.note(a, r, b, s, e, f); Point A = mkp(a), B = mkp(b), E = mkp(e); Circle c1(A, (ld)r), c2(B, (ld)s); i64 D = d2(a, b), sp = (r + s) * (r + s), sm = (r - s) * (r - s); bool same = a == b && r == s; int t = D > sp ? 4 : D == sp ? 3 : D > sm ? 2 : D == sm ? 1 : 0;
    auto onc = [&](const Circle& c, Point p) { return near(len(p - c.center), c.radius, c.radius); };
    if (!same) { EQ(ge::tangent_num(c1, c2), t); EQ(ge::tangent_num(c2, c1), t); auto ps = ge::common_point(c1, c2); EQ((int)ps.size(), t == 2 ? 2 : t == 1 || t == 3 ? 1 : 0); for (auto p : ps) CKM(onc(c1, p) && onc(c2, p), "common point on both circles"); if (ps.size() == 2) CKM(len(ps[0] - ps[1]) > 1e-6, "two different common points"); auto tl = ge::common_tangent(c1, c2); EQ((int)tl.size(), t); for (size_t i = 0; i < tl.size(); ++i) { auto& l = tl[i]; ld sc = (ld)R * R; CKM(near(len(l.a - A), r, sc) && near(len(l.b - B), s, sc), "tangent points are on the circles"); CKM(near(dotp(l.b - l.a, l.a - A), 0, sc) && near(dotp(l.b - l.a, l.b - B), 0, sc), "tangents are perpendicular to the radii"); for (size_t j = 0; j < i; ++j) CKM(len(tl[j].a - l.a) > 1e-6, "different tangents"); } }
    { ld d = std::sqrt((ld)D), w; if (D >= sp) w = 0; else if (D <= sm) w = acosl(-1.0L) * std::min(r, s) * std::min(r, s); else { auto seg = [&](ld p, ld q) { ld co = (d * d + p * p - q * q) / (2 * d * p); ld si = std::sqrt(std::max<ld>(0, 1 - co * co)); ld th = std::atan2(si, co); return p * p * (th - si * co); }; w = seg(r, s) + seg(s, r); } CKM(near(ge::intersection_area(c1, c2), w, 10 * (ld)R * R) && near(ge::intersection_area(c2, c1), w, 10 * (ld)R * R), "area of two circles"); }
    { i64 de = d2(a, e); EQ(code(ge::contains(c1, E)), de > r * r ? 0 : de == r * r ? 1 : 2); auto tp = ge::tangent_to_circle(c1, E); EQ((int)tp.size(), de > r * r ? 2 : de == r * r ? 1 : 0); for (auto p : tp) CKM(onc(c1, p) && near(dotp(p - A, p - E), 0, (ld)R * R), "tangent point"); if (tp.size() == 2) CKM(len(tp[0] - tp[1]) > 1e-6, "two different tangent points"); }
    if (e != f) { Point F = mkp(f); i64 L = d2(e, f); i128 x = (i128)cr(e, f, a) * cr(e, f, a), y = (i128)r * r * L; int k = x > y ? 0 : x == y ? 1 : 2; auto ps = ge::common_point(c1, Line(E, F)); EQ((int)ps.size(), k); for (auto p : ps) CKM(onc(c1, p) && std::abs(cross(F - E, p - E)) <= 1e-6L * len(F - E) * R, "common point of circle and line"); if (k == 2) CKM(len(ps[0] - ps[1]) > 1e-9, "two different points on the line"); auto qs = ge::common_point(c1, Segment(E, F)); int cnt = 0; bool edge = false; for (auto p : ps) { ld u = dotp(p - E, F - E) / L; cnt += u >= 0 && u <= 1; edge |= std::abs(u) < 1e-7L || std::abs(u - 1) < 1e-7L; } if (!edge) EQ((int)qs.size(), cnt); else { i64 de = d2(a, e), df = d2(a, f); int w = 0; /* an end point lies on the circle: count exactly */ w = (de == r * r) + (df == r * r); if (de == r * r && df == r * r) { EQ((int)qs.size(), 2); } else CKM((int)qs.size() >= std::min(w, 1) && (int)qs.size() <= 2, "segment end on the circle"); } for (auto p : qs) CKM(onc(c1, p), "common point of circle and segment"); }
    g.nontrivial(t >= 1 && !same); }

PBT(points, 5000, "always") { using namespace suisen::geometry; int R = lim(g); Pt a = gp(g, R), b = gp(g, R); Point A = mkp(a), B = mkp(b); ld th = g.in(-314, 314) / 100.0L, rho = g.in(0, 20); CKM(nearp(ge::polar(rho, th), Point(rho * std::cos(th), rho * std::sin(th))) && nearp(ge::cis(th), Point(std::cos(th), std::sin(th))) && nearp(ge::rot(A, th), Point(A.real() * std::cos(th) - A.imag() * std::sin(th), A.real() * std::sin(th) + A.imag() * std::cos(th)), R), "polar, cis, rot"); CKM(near(ge::arg(A), std::atan2(A.imag(), A.real())) && near(ge::abs(A), len(A), R) && ge::square_abs(A) == (ld)d2({ 0, 0 }, a) && ge::dot(A, B) == (ld)dt({ 0, 0 }, a, b) && ge::det(A, B) == (ld)cr({ 0, 0 }, a, b) && ge::conj(A) == Point(A.real(), -A.imag()) && ge::cartesian(3, 4) == Point(3, 4) && ge::getx(A) == (ld)a.first && ge::gety(A) == (ld)a.second, "arg, abs, dot, det, conj"); Pt ra{ a.second, a.first }, rb{ b.second, b.first }; CKM(ge::XY_COMPARATOR(A, B) == (a < b) && ge::XY_COMPARATOR_GREATER(A, B) == (a > b) && ge::YX_COMPARATOR(A, B) == (ra < rb) && ge::YX_COMPARATOR_GREATER(A, B) == (ra > rb), "orders"); Segment s(A, B); auto [p, q] = s; CKM(p == A && q == B, "structured binding"); s.get<0>() = B; CKM(s.a == B, "get"); g.nontrivial(true); }
PBT(hull_of_no_points, 1, "always") { g.nontrivial(); CKM(ge::convex_hull({}).empty(), "no points, no hull"); }
