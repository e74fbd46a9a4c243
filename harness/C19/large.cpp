#include "large.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/chromatic_number.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
struct D { std::vector<int> p; D(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool m(int a, int b) { a = f(a), b = f(b); if (a == b) return false; p[a] = b; return true; } };
PBT(kruscal_large, 3, "every case: more than 2^16 edges") {
    int n = big_n(g, 100000), m = 2 * n; Bulk b(g); g.nontrivial(); i64 lim = g.pick<i64>({ 3, 1000000000000LL }); std::vector<std::tuple<i64, int, int>> e; suisen::KruscalMinimumSpanningTree<i64> k(n); suisen::KruscalMaximumSpanningTree<i64> x(n); for (int i = 0; i < m; ++i) { int u = b.raw(n), v = b.raw(4) ? int(b.raw(n)) : (u + 1) % n; i64 w = b.range(-lim, lim); e.emplace_back(w, u, v); k.add_edge(u, v, w); x.add_edge(u, v, w); } std::sort(e.begin(), e.end()); auto go = [&](auto& k) { D d(n); i64 s = 0; int c = 0; for (auto [w, u, v] : e) if (d.m(u, v)) s += w, ++c; EQ(k.build(), c == n - 1); EQ(k.get_weight(), s); EQ((int)k.get_mst().size(), c); D q(n); for (auto [u, v, w] : k.get_mst()) CK(q.m(u, v)); }; go(k); std::reverse(e.begin(), e.end()); go(x);
}
PBT(manhattan_large, 4, "every case: thousands of points") {
    int n = g.in(2000, 5000), kind = g.raw(5); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); i64 lim = kind == 0 ? 30 : kind == 1 ? 3000 : 400000000; std::vector<std::pair<i64, i64>> p(n); for (int i = 0; i < n; ++i) { auto& q = p[i]; q = { b.range(-lim, lim), b.range(-lim, lim) }; if (kind == 3) q.second = q.first; if (kind == 4) q = { i64(i) * i % 100003, i }; } auto dist = [&](int i, int j) { return std::abs(p[i].first - p[j].first) + std::abs(p[i].second - p[j].second); };
    std::vector<i64> d(n, LLONG_MAX), nn(n, LLONG_MAX); std::vector<bool> in(n); d[0] = 0; i64 w = 0; for (int it = 0; it < n; ++it) { int u = -1; for (int v = 0; v < n; ++v) if (!in[v] && (u < 0 || d[v] < d[u])) u = v; in[u] = true; w += d[u]; for (int v = 0; v < n; ++v) if (v != u) { i64 x = dist(u, v); nn[u] = std::min(nn[u], x); if (!in[v]) d[v] = std::min(d[v], x); } }
    auto t = suisen::manhattan_mst<i64>(p); EQ(t.get_weight(), w); D q(n); i64 s = 0; for (auto& [u, v, x] : t.get_mst()) { CK(q.m(u, v)); EQ((i64)x, dist(u, v)); s += x; } EQ(s, w); auto r = suisen::manhattan_minimum_distances(p); for (int i = 0; i < n; ++i) EQ((i64)r[i], nn[i]);
}
PBT(manhattan_huge, 2, "every case: more than 2^16 points") { // points of a shuffled grid or of a line: closed form
    int n = big_n(g), kind = g.raw(3); Bulk b(g); g.nontrivial(); i64 h = g.pick<i64>({ 1, 1000 }); std::vector<std::pair<i64, i64>> p; i64 w = 0, near = 0; if (kind == 0) { int s = std::sqrt(double(n)); for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) p.emplace_back(i * h, j * h); w = h * (i64(s) * s - 1); near = h; } else { for (int i = 0; i < n; ++i) p.emplace_back(i * h, kind == 1 ? -i * h : 7); near = kind == 1 ? 2 * h : h; w = near * (n - 1); } b.shuffle(p); EQ((i64)suisen::manhattan_mst<i64>(p).get_weight(), w); for (i64 x : suisen::manhattan_minimum_distances(p)) EQ(x, near);
}
PBT(triangles_large, 3, "every case: more than 2^15 edges") {
    int n = g.pick(std::vector<int>{ 700, 3000, 50000 }), m = 35000, kind = g.raw(2); Bulk b(g); g.nontrivial(); std::set<std::pair<int, int>> s; if (kind) for (int i = 1; i < n; ++i) s.emplace(0, i); while ((int)s.size() < m) { int u = b.raw(n), v = b.raw(n); if (u != v) s.emplace(std::min(u, v), std::max(u, v)); } E2 e(s.begin(), s.end()); Adj a = adj_of(n, e); for (auto& l : a) b.shuffle(l); std::vector<std::array<int, 3>> got; suisen::enumerate_triangles(a, [&](int x, int y, int z) { std::array<int, 3> t{ x, y, z }; std::sort(t.begin(), t.end()); got.push_back(t); }); std::sort(got.begin(), got.end()); CKM(std::adjacent_find(got.begin(), got.end()) == got.end(), "a triangle is listed twice"); for (auto& t : got) CK(s.count({ t[0], t[1] }) && s.count({ t[1], t[2] }) && s.count({ t[0], t[2] }));
    i64 cnt = 0; std::vector<int> mark(n, -1); auto bigger = [&](int u, int v) { return std::pair(a[u].size(), u) < std::pair(a[v].size(), v); }; Adj up(n); for (int u = 0; u < n; ++u) for (int v : a[u]) if (bigger(u, v)) up[u].push_back(v); for (int u = 0; u < n; ++u) { for (int v : up[u]) mark[v] = u; for (int v : up[u]) for (int w : up[v]) if (mark[w] == u) ++cnt; } EQ((i64)got.size(), cnt);
}
// exact answers on structured graphs of a few dozen vertices
PBT(hard_structured, 12, "every case: at least 20 vertices") {
    int kind = g.raw(5), n, mis, mc, chi; E2 e; Bulk b(g); g.nontrivial(); switch (kind) { case 0: n = 2 * g.in(10, 25) + g.in(0, 1); for (int i = 0; i < n; ++i) e.emplace_back(i, (i + 1) % n); mis = n / 2; mc = 2; chi = n % 2 ? 3 : 2; break; case 1: { int k = g.in(3, 6), c = g.in(4, 6); n = k * c; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i / c == j / c) e.emplace_back(i, j); mis = k; mc = c; chi = c; break; } case 2: { int k = g.in(3, 5), c = g.in(5, 7); n = k * c; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i / c != j / c) e.emplace_back(i, j); mis = c; mc = k; chi = k; break; } case 3: { int w = 5, h = g.in(4, 8); n = w * h; for (int i = 0; i < n; ++i) { if (i % w != w - 1) e.emplace_back(i, i + 1); if (i + w < n) e.emplace_back(i, i + w); } mis = (n + 1) / 2; mc = 2; chi = 2; break; } default: { n = 10 * g.in(2, 4); static const int pet[15][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 4 }, { 4, 0 }, { 0, 5 }, { 1, 6 }, { 2, 7 }, { 3, 8 }, { 4, 9 }, { 5, 7 }, { 7, 9 }, { 9, 6 }, { 6, 8 }, { 8, 5 } }; for (int k = 0; k < n; k += 10) for (auto& x : pet) e.emplace_back(k + x[0], k + x[1]); mis = 4 * (n / 10); mc = 2; chi = 3; } }
    auto p = b.perm(n); for (auto& [u, v] : e) u = p[u], v = p[v]; b.shuffle(e); g.note("kind ", kind, " n ", n); Adj a = adj_of(n, e); std::set<std::pair<int, int>> s; for (auto [u, v] : e) s.emplace(u, v), s.emplace(v, u); auto I = suisen::maximum_independent_set(a); EQ((int)I.size(), mis); for (int u : I) for (int v : I) CK(!s.count({ u, v })); auto C = suisen::maximum_clique(a); EQ((int)C.size(), mc); for (int u : C) for (int v : C) CK(u == v || s.count({ u, v })); auto V = suisen::minimum_vertex_cover(a); EQ((int)V.size(), n - mis); std::vector<bool> in(n); for (int v : V) in[v] = true; for (auto [u, v] : e) CK(in[u] || in[v]); if (n <= 20) EQ(suisen::chromatic_number(n, e), chi);
}
PBT(tw2_large, 3, "every case: tens of thousands of vertices") {
    int n = g.in(20000, 45000), kind = g.raw(4); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); E2 e{ { 0, 1 } }, cur{ { 0, 1 } }; for (int v = 2; v < n; ++v) { if (kind == 3) { e.emplace_back(0, v); if (v > 2 && b.coin()) e.emplace_back(v - 1, v); continue; } if (kind == 2) { e.emplace_back(v - 1, v); continue; } auto [x, y] = kind == 0 ? cur.back() : cur[b.raw(cur.size())]; e.emplace_back(x, v); e.emplace_back(y, v); cur.emplace_back(x, v); cur.emplace_back(y, v); } if (kind == 2) e.emplace_back(n - 1, 0); { E2 f; for (auto x : e) if (kind == 2 || b.raw(20)) f.push_back(x); e = f; } auto p = b.perm(n); for (auto& [u, v] : e) u = p[u], v = p[v]; b.shuffle(e);
    suisen::TreeDecompositionTW2 td(n, e); auto check = [&](const Adj& bag, const Adj& adj) { int k = bag.size(); size_t ec = 0; std::vector<int> cnt(n), both(n); E2 pr; for (int i = 0; i < k; ++i) { ec += adj[i].size(); CK(bag[i].size() <= 3); for (int u : bag[i]) { ++cnt[u]; for (int v : bag[i]) pr.emplace_back(u, v); } for (int j : adj[i]) if (j < i) for (int u : bag[i]) both[u] += std::count(bag[j].begin(), bag[j].end(), u); } EQ(ec, size_t(2) * (k - 1)); for (int x : bfs_dist(adj, 0)) CK(x >= 0); for (int v = 0; v < n; ++v) CKM(cnt[v] >= 1 && both[v] == cnt[v] - 1, "bags of a vertex do not form a subtree"); std::sort(pr.begin(), pr.end()); for (auto x : e) CKM(std::binary_search(pr.begin(), pr.end(), x), "edge not inside any bag"); };
    auto r = td.decomp(); CK(r.has_value()); { Adj bag, adj; for (auto& x : *r) bag.push_back(x.bag), adj.push_back(x.adj); check(bag, adj); } auto q = td.nice_decomp(); CK(q.has_value()); { Adj bag, adj(q->size()); for (auto& x : *q) bag.push_back(x.bag); for (int i = 0; i < (int)q->size(); ++i) for (int c : (*q)[i].ch) adj[i].push_back(c), adj[c].push_back(i); check(bag, adj); }
    if (kind == 2) { int m = n; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) e.emplace_back(p[i], p[j]); (void)m; suisen::TreeDecompositionTW2 bad(n, e); CK(!bad.decomp().has_value()); }
}
