// 3-D geometry on small integer configurations and axis-parallel segment intersections.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <optional>
#include "library/geom/geometry3d.hpp"
using namespace hv;
namespace g3 = suisen::geometry3d;
using namespace suisen::geometry3d;
using ld = long double;
using I3 = std::array<i64, 3>;
static I3 sub(I3 a, I3 b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static i64 dot(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static I3 crs(I3 a, I3 b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static bool zero(I3 a) { return !a[0] && !a[1] && !a[2]; }
static g3::Point mk(I3 a) { return { (ld)a[0], (ld)a[1], (ld)a[2] }; }
static bool near(ld a, ld b, ld sc = 1) { return std::abs(a - b) <= 1e-7L * std::max<ld>(1, sc); }
static I3 gp(Gen& g, int R) { i64 x = g.in(-R, R), y = g.in(-R, R); return { x, y, (i64)g.in(-R, R) }; }
static bool eqp(const g3::Point& a, const g3::Point& b, ld sc = 1) { return near(a[0], b[0], sc) && near(a[1], b[1], sc) && near(a[2], b[2], sc); }
static ld n3(const g3::Point& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
// minimum of |a + s u - b - t v| over s in [0, S], t in [0, T] (1 or unbounded ranges), by convex coordinate case analysis
static ld mindist(I3 a0, I3 a1, int ka, I3 b0, I3 b1, int kb) { // kind 0 line, 1 ray, 2 segment, 3 point
    I3 ui = sub(a1, a0), vi = sub(b1, b0), wi = sub(a0, b0); ld uu = dot(ui, ui), vv = dot(vi, vi), uv = dot(ui, vi), uw = dot(ui, wi), vw = dot(vi, wi), ww = dot(wi, wi); auto f = [&](ld s, ld t) { return ww + 2 * s * uw - 2 * t * vw + s * s * uu + t * t * vv - 2 * s * t * uv; }; auto cl = [](ld x, int k) { if (k == 3) return (ld)0; if (k >= 1) x = std::max<ld>(x, 0); if (k == 2) x = std::min<ld>(x, 1); return x; }; ld best = 1e30L; auto bestt = [&](ld s) { return kb == 3 ? (ld)0 : cl((vw + s * uv) / vv, kb); }; auto bests = [&](ld t) { return ka == 3 ? (ld)0 : cl((t * uv - uw) / uu, ka); }; auto tryst = [&](ld s, ld t) { best = std::min(best, f(s, t)); }; i64 den = dot(ui, ui) * dot(vi, vi) - dot(ui, vi) * dot(ui, vi); if (ka != 3 && kb != 3 && den != 0) { ld s = (uv * vw - vv * uw) / den, t = (uu * vw - uv * uw) / den; if (cl(s, ka) == s && cl(t, kb) == t) tryst(s, t); } for (ld s : { (ld)0, (ld)1 }) if (!(s == 1 && ka != 2)) tryst(s, bestt(s)); for (ld t : { (ld)0, (ld)1 }) if (!(t == 1 && kb != 2)) tryst(bests(t), t); if (ka == 0 && kb == 0 && den == 0) tryst(0, bestt(0)); return std::sqrt(std::max<ld>(0, best)); }

PBT(lines_3d, 30000, "two non-parallel or overlapping parallel lines") { int R = g.pick({ 1, 2, 5, 20 }); I3 a = gp(g, R), b = gp(g, R), c = gp(g, R), d = gp(g, R), p = gp(g, R); if (a == b) b[0]++; if (g.chance(1, 4)) { int k = g.pick({ -2, -1, 1, 2 }); d = { c[0] + k * (b[0] - a[0]), c[1] + k * (b[1] - a[1]), c[2] + k * (b[2] - a[2]) }; if (g.coin()) { int t = g.in(-3, 3); I3 o = sub(d, c); c = { a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2]) }; d = { c[0] + o[0], c[1] + o[1], c[2] + o[2] }; } } else if (g.chance(1, 4)) { int s = g.in(-2, 3), t = g.in(-2, 3); c = { a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1]), a[2] + s * (b[2] - a[2]) }; I3 o = sub(d, c); if (t) c = { c[0] - t * o[0], c[1] - t * o[1], c[2] - t * o[2] }, d = { c[0] + o[0], c[1] + o[1], c[2] + o[2] }; } if (c == d) d[1]++; if (g.chance(1, 4)) { int t = g.in(-2, 3); p = { a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2]) }; }
    g.note(a, b, c, d, p); auto A = mk(a), B = mk(b), C = mk(c), D = mk(d), P = mk(p); g3::Line l(A, B), m(C, D); g3::Ray rl(A, B), rm(C, D); g3::Segment sl(A, B), sm(C, D); I3 u = sub(b, a), v = sub(d, c); bool par = zero(crs(u, v)); const ld sc = 100;
    ld d0 = mindist(a, b, 0, p, p, 3), d1 = mindist(a, b, 1, p, p, 3), d2 = mindist(a, b, 2, p, p, 3); CKM(near(dist(l, P), d0, sc) && near(dist(rl, P), d1, sc) && near(dist(sl, P), d2, sc), "distance to a point"); { I3 ap = sub(p, a); bool ol = zero(crs(u, ap)); i64 t = dot(u, ap); CKM(on(l, P) == ol && on(rl, P) == (ol && t >= 0) && on(sl, P) == (ol && t >= 0 && t <= dot(u, u)), "on a line, ray, segment"); } { auto h = projection(l, P); CKM(near(inner_product(h - P, B - A), 0, sc) && near(n3(outer_product(h - A, B - A)), 0, sc), "projection on a line"); }
    CKM(is_parallel(l, m) == par && is_orthogonal(l, m) == (dot(u, v) == 0) && g3::is_parallel(mk(u), mk(v)) == par && g3::is_orthogonal(mk(u), mk(v)) == (dot(u, v) == 0), "parallel, orthogonal");
    auto MD = [&](int x, int y) { return mindist(a, b, x, c, d, y); }; CKM(near(dist(l, m), MD(0, 0), sc), "line-line distance"); CKM(near(dist(l, rm), MD(0, 1), sc) && near(dist(rm, l), MD(0, 1), sc), "line-ray distance"); CKM(near(dist(l, sm), MD(0, 2), sc) && near(dist(sm, l), MD(0, 2), sc), "line-segment distance"); { const g3::Line cl = l; CKM(near(dist(sm, cl), MD(0, 2), sc) && near(dist(sm, g3::Line(A, B)), MD(0, 2), sc), "segment-line distance with a constant line"); } CKM(near(dist(rl, rm), MD(1, 1), sc), "ray-ray distance"); CKM(near(dist(rl, sm), MD(1, 2), sc) && near(dist(sm, rl), MD(1, 2), sc), "ray-segment distance"); CKM(near(dist(sl, sm), MD(2, 2), sc), "segment-segment distance");
    if (!par) { bool cop = dot(crs(u, v), sub(c, a)) == 0; auto chk = [&](std::optional<g3::Point> q, int k, const char* w) { I3 nn = crs(u, v); i64 den = dot(nn, nn), sx = dot(crs(sub(c, a), v), nn), tx = dot(crs(sub(c, a), u), nn); bool ex = cop && (k < 1 || (sx >= 0 && tx >= 0)) && (k < 2 || (sx <= den && tx <= den)); CKM(q.has_value() == ex, w); if (q) CKM(near(n3(outer_product(*q - A, B - A)), 0, sc) && near(n3(outer_product(*q - C, D - C)), 0, sc), w); }; chk(cross_point(l, m), 0, "cross point of lines"); chk(cross_point(rl, rm), 1, "cross point of rays"); chk(cross_point(sl, sm), 2, "cross point of segments"); } g.nontrivial(!par || zero(crs(u, sub(c, a)))); }

PBT(planes, 30000, "line not parallel to the plane") { int R = g.pick({ 1, 2, 5, 20 }); I3 a = gp(g, R), b = gp(g, R), c = gp(g, R), p = gp(g, R), q = gp(g, R); I3 n = crs(sub(b, a), sub(c, a)); if (zero(n)) return; if (p == q) q[2]++; if (g.chance(1, 3)) { int s = g.in(-2, 2), t = g.in(-2, 2); for (int i = 0; i < 3; ++i) p[i] = a[i] + s * (b[i] - a[i]) + t * (c[i] - a[i]); if (p == q) q[2]++; } if (g.chance(1, 4)) { int s = g.in(-2, 2), t = g.in(1, 2); for (int i = 0; i < 3; ++i) q[i] = p[i] + s * (b[i] - a[i]) + t * (c[i] - a[i]); } g.note(a, b, c, p, q); auto P = mk(p), Q = mk(q); ld nl = std::sqrt((ld)dot(n, n)); Plane pl(mk(a), mk(b), mk(c)); const ld sc = 100; i64 hp = dot(n, sub(p, a)), hq = dot(n, sub(q, a)); CKM(near(dist(pl, P), std::abs((ld)hp) / nl, sc) && on(pl, P) == (hp == 0), "distance to a plane"); { auto h = projection(pl, P); CKM(near(dist(pl, h), 0, sc) && near(n3(outer_product(h - P, mk(n))) / nl, 0, sc), "projection on a plane"); } g3::Line l(P, Q); g3::Ray r(P, Q); g3::Segment s(P, Q); bool par = hp == hq; CKM(is_parallel(pl, l) == par && is_orthogonal(pl, l) == zero(crs(n, sub(q, p))), "plane-line relations");
    ld A = std::abs((ld)hp) / nl, B = std::abs((ld)hq) / nl; bool cross = (hp <= 0 && hq >= 0) || (hp >= 0 && hq <= 0); bool toward = hp == 0 || (hp > 0 && hq < hp) || (hp < 0 && hq > hp); CKM(near(dist(pl, l), par ? A : 0, sc) && near(dist(pl, r), toward ? 0 : A, sc) && near(dist(pl, s), cross ? 0 : std::min(A, B), sc), "plane to line, ray, segment"); auto chk = [&](std::optional<g3::Point> x, bool ex, const char* w) { CKM(x.has_value() == ex, w); if (x) CKM(near(dist(pl, *x), 0, sc) && near(n3(outer_product(*x - P, Q - P)), 0, sc * sc), w); }; chk(cross_point(pl, l), !par || hp == 0, "plane meets line"); chk(cross_point(pl, r), hp == 0 || (!par && toward), "plane meets ray"); chk(cross_point(pl, s), cross && (hp == 0 || !par), "plane meets segment");
    { ld x = (ld)n[0], y = (ld)n[1], z = (ld)n[2], w = -(ld)dot(n, a); Plane p2(x, y, z, w); CKM(near(dist(p2, P), A, sc), "plane from coefficients"); const ld cy = y, cz = z, cw = w; Plane p3(x, cy, cz, cw); CKM(near(dist(p3, P), A, sc), "plane from constant coefficients"); }
    { std::array<g3::Point, 3> tri{ mk(a), mk(b), mk(c) }; I3 x = p; if (g.coin()) { int s = g.in(0, 3), t = g.in(0, 3); bool dv = true; for (int i = 0; i < 3; ++i) { i64 w = 3 * a[i] + s * (b[i] - a[i]) + t * (c[i] - a[i]); dv &= w % 3 == 0; x[i] = w / 3; } if (!dv) x = p; } bool in = dot(n, sub(x, a)) == 0; if (in) { i64 e1 = dot(n, crs(sub(b, a), sub(x, a))), e2 = dot(n, crs(sub(c, b), sub(x, b))), e3 = dot(n, crs(sub(a, c), sub(x, c))); in = e1 >= 0 && e2 >= 0 && e3 >= 0; } EQ(on_triangle(tri, mk(x)), in); } g.nontrivial(!par); }

PBT(vectors_3d, 5000, "always") { I3 a = gp(g, 20), b = gp(g, 20); auto A = mk(a), B = mk(b); ld k = g.in(-9, 9); CKM(eqp(A + B, { A[0] + B[0], A[1] + B[1], A[2] + B[2] }) && eqp(A - B, mk(sub(a, b))) && eqp(A * B, mk(crs(a, b))) && eqp(outer_product(A, B), mk(crs(a, b))) && inner_product(A, B) == (ld)dot(a, b), "sum, difference, products"); CKM(eqp(A * k, { A[0] * k, A[1] * k, A[2] * k }) && eqp(k * A, A * k) && eqp(-A, mk(sub({ 0, 0, 0 }, a))) && eqp(+A, A), "scalar"); if (k != 0) CKM(eqp(A / k, { A[0] / k, A[1] / k, A[2] / k }), "division"); CKM(square_abs(A) == (ld)dot(a, a) && near(g3::abs(A), std::sqrt((ld)dot(a, a))) && near(dist(A, B), std::sqrt((ld)dot(sub(a, b), sub(a, b)))), "norms"); if (!zero(a)) CKM(near(g3::abs(normalized(A)), 1) && eqp(normalized(A) * g3::abs(A), A), "normalized"); CKM(g3::equals(A, B) == (a == b) && signum(A[0]) == (a[0] > 0) - (a[0] < 0) && g3::compare(A[0], B[0]) == (a[0] > b[0]) - (a[0] < b[0]), "comparisons"); g.nontrivial(true); }
