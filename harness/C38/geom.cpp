// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include <complex>
#include <cmath>
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/geom/segment_intersections.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
using namespace hv; namespace ig = suisen::integral_geometry; namespace ge = suisen::geometry; using Pt = std::pair<i64, i64>;
static constexpr int n0 = 1 << 11, n1 = 1 << 16, SHAPES = 8;
// uniform, circle, one column, one row, few distinct points, diagonal, two columns, parabola
static std::vector<Pt> cloud(Bulk& b, int n, int sh) {
    std::vector<Pt> v(n); const i64 R = 100000;
    for (int i = 0; i < n; ++i) switch (sh) {
        case 0: v[i] = { b.range(-R, R), b.range(-R, R) }; break;
        case 1: { double t = b.raw(1000000000) * 6.283185307179586e-9; v[i] = { (i64)(R * 1000 * std::cos(t)), (i64)(R * 1000 * std::sin(t)) }; } break;
        case 2: v[i] = { 5, i64(i) * 7 }; break;
        case 3: v[i] = { i64(i) * 7, 5 }; break;
        case 4: v[i] = { b.range(0, 3), b.range(0, 3) }; break;
        case 5: v[i] = { i64(i) * 3, i64(i) * 3 }; break;
        case 6: v[i] = { i % 2 ? 1000 : 0, i64(i) * 5 }; break;
        default: v[i] = { i - n / 2, i64(i - n / 2) * (i - n / 2) };
    }
    b.shuffle(v); return v;
}
PBT(point_sets_cost, 2, "every case: cost at two sizes compared, eight point families") {
    for (int sh = 0; sh < SHAPES; ++sh) {
        auto nm = [&](const char* w) { return std::string(w) + ", points " + std::to_string(sh); };
        grows(g, nm("closest pair"), o_nlog, n0, n1, [=](int n, Bulk& b) { auto v = cloud(b, n, sh); std::vector<ig::Point> p; std::vector<ge::Point> q; for (auto [x, y] : v) p.emplace_back(x, y), q.emplace_back(x, y); return cost([&] { K << ig::closest_pair(p) << ge::closest_pair(q); }); });
        grows(g, nm("convex hulls, farthest pair, diameter"), o_nlog, n0, n1, [=](int n, Bulk& b) { auto v = cloud(b, n, sh); std::vector<ig::Point> p; std::vector<ge::Point> q; for (auto [x, y] : v) p.emplace_back(x, y), q.emplace_back(x, y); return cost([&] { K << ig::farthest_pair<ig::Point>(p); auto h = ig::convex_hull<ig::Point>(p), k = ge::convex_hull(q); ge::Polygon P; for (int i : k) P.push_back(q[i]); K << ge::area(P); if (k.size() > 2) K << ge::convex_diameter(P); ig::Polygon I; for (int i : h) I.push_back(p[i]); if (h.size() > 2) K << ig::convex_diameter(I); }); });
        grows(g, nm("sorting by argument"), o_nlog, n0, n1, [=](int n, Bulk& b) { auto v = cloud(b, n, sh); return cost([&] { ig::sort_points_by_argument(v); K << v; }); });
    }
    grows(g, "hull inclusion", o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<Pt> w; for (int i = 0; i < n; ++i) w.emplace_back(i - n / 2, i64(i - n / 2) * (i - n / 2)); return cost([&] { ig::ConvexHullInclusion<Pt> inc(w); for (int i = 0; i < n; ++i) K << inc(Pt{ b.range(-n, n), b.range(0, i64(n) * n / 4) }); K << ig::count_lattice_points<Pt>(w); }); });
}
PBT(sweeps_cost, 2, "every case: cost at two sizes compared") {
    for (int k = 0; k < 2; ++k) {
        grows(g, "segment intersections", o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<std::pair<i64, std::pair<i64, i64>>> v(n); std::vector<std::pair<std::pair<i64, i64>, i64>> h(n); auto c = [&] { return b.range(-n, n); }; for (auto& [x, y] : v) x = c(), y = k ? std::make_pair<i64, i64>(-n, n) : std::make_pair(c(), c()); for (auto& [x, y] : h) y = c(), x = k ? std::make_pair<i64, i64>(-n, n) : std::make_pair(c(), c()); return cost([&] { K << ge::segment_intersections<i64>(v, h); }); });
        grows(g, "monotone minima", o_nlog, n0, n1, [=](int n, Bulk&) { return cost([&] { K << suisen::monotone_minima(n, n, [&](size_t i, size_t j) { return k ? i64(j) : (i64(i) - i64(j)) * (i64(i) - i64(j)); }); }); });
    }
    for (int k = 0; k < 3; ++k) grows(g, "largest rectangles, grid " + std::to_string(k), o_n, 64 * 64, 256 * 256, [=](int n, Bulk& b) { int m = std::sqrt(n); std::vector<std::vector<int>> a(m, std::vector<int>(m)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) a[i][j] = k == 0 ? 1 : k == 1 ? b.raw(10) > 0 : i >= j; return cost([&] { K << suisen::maximum_rectngle(a) << suisen::maximum_square(a); }); }, 1.8);
    for (int sh : { 0, 1, 2, 3, 7 }) grows(g, "offline dynamic hull, points " + std::to_string(sh), o_nlog2, n0, 1 << 14, [=](int n, Bulk& b) { auto v = cloud(b, n, sh); for (auto& [x, y] : v) x = std::max<i64>(-1000000000, std::min<i64>(1000000000, x)), y = std::max<i64>(-1000000000, std::min<i64>(1000000000, y)); std::vector<int> xs; for (auto& p : v) xs.push_back(p.first); return cost([&] { suisen::DynamicConvexHullOffline H(xs); for (int i = 0; i < n; ++i) { H.insert(v[i].first, v[i].second); K << H.linear_max(b.in(-1000, 1000), b.in(-1000, 1000)); if (i >= n / 2) H.erase(v[i - n / 2].first, v[i - n / 2].second); } }); });
}
