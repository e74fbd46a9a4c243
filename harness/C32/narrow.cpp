// Integer geometry on narrow and mixed coordinate types: the products must be taken in the wide type.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <numeric>
#include <set>
#include <tuple>
#include <vector>
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
using namespace hv;
namespace ig = suisen::integral_geometry;
using ig::Inclusion;
using Pt = std::pair<i64, i64>;
static i128 cr(const Pt& o, const Pt& a, const Pt& b) { return (i128)(a.first - o.first) * (b.second - o.second) - (i128)(a.second - o.second) * (b.first - o.first); }
static std::vector<Pt> hull(std::vector<Pt> v) { // strict hull, counter-clockwise
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); int n = v.size(); if (n <= 2) return v;
    std::vector<Pt> h; for (int s = 0; s < 2; ++s) { size_t b = h.size(); for (auto& p : v) { while (h.size() >= b + 2 && cr(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); } return h; }
static int inhull(const std::vector<Pt>& h, const Pt& p) { int n = h.size(); if (n == 1) return p == h[0]; if (n == 2) { auto [x0, x1] = std::minmax(h[0].first, h[1].first); auto [y0, y1] = std::minmax(h[0].second, h[1].second); return cr(h[0], h[1], p) == 0 && x0 <= p.first && p.first <= x1 && y0 <= p.second && p.second <= y1; } bool on = false; for (int i = 0; i < n; ++i) { i128 c = cr(h[i], h[(i + 1) % n], p); if (c < 0) return 0; on |= c == 0; } return on ? 1 : 2; }
static int code(Inclusion x) { return x == Inclusion::OUT ? 0 : x == Inclusion::ON ? 1 : 2; }
template <class P> static P cv(const Pt& p) { return P(p.first, p.second); }
template <class P> static void inclusion(Gen& g, std::vector<Pt> h, std::vector<Pt> rep, const std::vector<Pt>& qs, const char* w) { std::vector<P> t; for (auto& p : rep) t.push_back(cv<P>(p)); ig::ConvexHullInclusion<P> inc(t); for (auto& q : qs) { int r = code(inc(cv<P>(q))), e = inhull(h, q); if (r != e) g.note(w, q); EQ(r, e); } }
PBT(narrow_types, 8000, "at least 3 hull vertices and a coordinate above 2^16", 3, 15) {
    const i64 M = g.pick({ 3, 1000, 60000, 1000000000 }); int n = g.in(1, g.factor() * 6); std::vector<Pt> v(n); int shape = g.raw(4);
    for (auto& p : v) { p = { g.range(-M, M), g.range(-M, M) }; if (shape == 0) p = { g.in(-1, 1) * M, g.in(-1, 1) * M }; if (shape == 1) { i64 t = g.in(-3, 3); p = { t * (M / 3), -t * (M / 3) }; } if (shape == 2 && g.coin()) p.first = g.coin() ? M : -M; }
    g.note(v); auto h = hull(v); std::vector<Pt> rep; for (auto& p : h) for (int c = g.chance(1, 4) ? g.in(1, 3) : 1; c--;) rep.push_back(p); std::rotate(rep.begin(), rep.begin() + g.raw(rep.size()), rep.end()); if (g.chance(1, 3)) rep.push_back(rep[0]);
    std::vector<Pt> qs; for (int t = 0; t < 10; ++t) { Pt p = t < 2 ? v[g.raw(n)] : Pt{ g.range(-M, M), g.range(-M, M) }; if (t >= 6) { auto a = h[g.raw(h.size())], b = h[g.raw(h.size())]; p = { std::clamp((a.first + b.first) / 2 + g.in(-1, 1), -M, M), std::clamp((a.second + b.second) / 2 + g.in(-1, 1), -M, M) }; } qs.push_back(p); }
    std::vector<Pt> qi; for (auto& q : qs) qi.push_back(q);
    inclusion<std::pair<int, i64>>(g, h, rep, qs, "<int, i64>"); inclusion<std::pair<i64, int>>(g, h, rep, qs, "<i64, int>"); inclusion<std::tuple<i64, i64>>(g, h, rep, qs, "tuple<i64, i64>"); inclusion<std::pair<int, int>>(g, h, rep, qi, "<int, int>");
    if (M < 30000) { inclusion<std::pair<short, int>>(g, h, rep, qs, "<short, int>"); inclusion<std::pair<int, short>>(g, h, rep, qs, "<int, short>"); }
    // the same points moved into the first quadrant, unsigned coordinates
    { auto sh = [&](std::vector<Pt> w) { for (auto& p : w) p.first += M, p.second += M; return w; }; inclusion<std::pair<unsigned, i64>>(g, sh(h), sh(rep), sh(qs), "<unsigned, i64>"); inclusion<std::pair<i64, unsigned>>(g, sh(h), sh(rep), sh(qs), "<i64, unsigned>"); }
    { std::vector<std::pair<int, int>> vi; for (auto& p : v) vi.push_back({ (int)p.first, (int)p.second }); auto ids = ig::convex_hull<std::pair<int, int>>(vi); std::vector<Pt> r; for (int i : ids) { CKM(0 <= i && i < n, "index"); r.push_back(v[i]); } if (n >= 3 && h.size() >= 3) { EQ(hull(r), h); for (auto& p : r) EQ(inhull(h, p), 1); } auto idl = ig::convex_hull<std::pair<int, i64>>([&] { std::vector<std::pair<int, i64>> w; for (auto& p : v) w.push_back(p); return w; }()); EQ(idl, ids); }
    if (h.size() >= 3) { i128 s = 0; i64 b = 0; int m = h.size(); for (int i = 0; i < m; ++i) { auto p = h[i], q = h[(i + 1) % m]; s += (i128)p.first * q.second - (i128)p.second * q.first; b += std::gcd(std::abs(p.first - q.first), std::abs(p.second - q.second)); } i128 w = (s + 2 + b) / 2; std::vector<std::pair<int, int>> hi; std::vector<std::pair<i64, int>> hm; auto pr = h; std::rotate(pr.begin(), pr.begin() + g.raw(m), pr.end()); if (g.coin()) std::reverse(pr.begin(), pr.end()); for (auto& p : pr) hi.push_back({ (int)p.first, (int)p.second }), hm.push_back({ p.first, (int)p.second }); CKM((i128)(ig::count_lattice_points<std::pair<int, int>>(hi)) == w, "lattice points, int coordinates"); CKM((i128)(ig::count_lattice_points<std::pair<i64, int>>(hm)) == w, "lattice points, mixed coordinates"); CKM((ig::count_lattice_points<std::pair<int, int>, __int128>(hi)) == w, "lattice points, 128-bit result"); }
    g.nontrivial(h.size() >= 3 && M > 60000); }
PBT(few_points, 400, "always") { int n = g.raw(3); std::vector<Pt> v(n); for (auto& p : v) p = { g.in(-2, 2), g.in(-2, 2) }; g.note(v); auto ids = ig::convex_hull<Pt>(v); std::vector<Pt> r; for (int i : ids) { CKM(0 <= i && i < n, "index"); r.push_back(v[i]); } EQ(hull(r), hull(v)); std::vector<std::pair<int, int>> vi(v.begin(), v.end()); EQ((ig::convex_hull<std::pair<int, int>>(vi).size()), ids.size()); if (!n) CKM(ids.empty(), "no points, no hull"); g.nontrivial(); }
