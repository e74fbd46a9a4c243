// Intersections of horizontal and vertical segments.
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include "library/geom/segment_intersections.hpp"
using namespace hv;
PBT(axis_parallel_segments, 6000, "at least one intersection", 8, 12) { int n = g.len(0, 20), m = g.len(0, 20); int R = g.pick({ 2, 6, 1000000000 }); using T = long long; std::vector<std::pair<T, std::pair<T, T>>> v(n); std::vector<std::pair<std::pair<T, T>, T>> h(m); auto c = [&] { return (T)g.in(-R, R); }; for (auto& x : v) x = { c(), { c(), c() } }; for (auto& x : h) { T p = c(), q = c(); x = { { p, q }, c() }; } g.note(v, h); long long w = 0; for (auto& [x, y] : v) for (auto& [r, yy] : h) w += std::min(r.first, r.second) <= x && x <= std::max(r.first, r.second) && std::min(y.first, y.second) <= yy && yy <= std::max(y.first, y.second); EQ((suisen::geometry::segment_intersections<T>(v, h)), w); g.nontrivial(w > 0); }
