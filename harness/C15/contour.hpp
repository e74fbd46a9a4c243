#pragma once
#include "common.hpp"
using namespace hv;
struct CT { int n; std::vector<std::pair<int, int>> es; std::vector<std::vector<int>> d; CT(Gen& g, int mx = 30) { n = g.size(1, mx); es = g.tree(n); auto a = adj_of(n, es); for (int v = 0; v < n; ++v) d.push_back(bfs_dist(a, v)); g.note("n ", n, " edges ", es); g.nontrivial(n >= 5); } std::pair<int, int> rng(Gen& g) { int l = g.in(-2, n + 1), r = g.in(-2, n + 2); if (l > r) std::swap(l, r); return { l, r }; } };
