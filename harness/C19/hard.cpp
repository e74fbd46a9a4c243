#include "common.hpp"
#include <numeric>
#include <array>
#include "library/graph/chromatic_number.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
// simple graph with shuffled labels: random density, unions of cycles / paths, or complements of those
static E2 gen_simple(Gen& g, int n) { std::set<std::pair<int, int>> s; auto p = g.perm(n); auto put = [&](int a, int b) { if (a != b) s.emplace(std::min(p[a], p[b]), std::max(p[a], p[b])); };
    switch (g.raw(4)) { case 0: { int d = g.in(1, 9); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g.chance(d, 10)) put(i, j); break; } case 1: { for (int i = 0; i < n;) { int l = std::min<int>(n - i, g.in(1, 7)); for (int k = 0; k + 1 < l; ++k) put(i + k, i + k + 1); if (g.coin() && l > 2) put(i, i + l - 1); i += l; } for (int k = g.in(0, 2); k-- && n;) put(g.raw(n), g.raw(n)); break; } case 2: if (n > 1) { for (auto [a, b] : g.tree(n)) put(a, b); for (int k = g.in(0, 4); k--;) put(g.raw(n), g.raw(n)); } break; default: { int k = g.in(1, 5); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i % k != j % k && !g.chance(1, 5)) put(i, j); } }
    if (g.chance(1, 4)) { std::set<std::pair<int, int>> t; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!s.count({ i, j })) t.emplace(i, j); s = t; }
    E2 e(s.begin(), s.end()); g.shuffle(e); for (auto& x : e) if (g.coin()) std::swap(x.first, x.second); return e; }
static std::vector<int> masks(int n, const E2& e) { std::vector<int> a(n); for (auto [u, v] : e) a[u] |= 1 << v, a[v] |= 1 << u; return a; }
static Adj adj_sh(Gen& g, int n, const E2& e) { Adj a = adj_of(n, e); for (auto& r : a) g.shuffle(r); return a; }
PBT(chromatic_number, 3000, "chromatic number at least 3 and below the number of vertices") {
    int n = g.size(0, 10); auto e = gen_simple(g, n); g.note("n ", n, e); auto a = masks(n, e); auto in = e; if (e.size() && g.chance(1, 4)) in.push_back(e[g.raw(e.size())]); int got = suisen::chromatic_number(n, in); std::vector<int> col(n); int best = n; std::function<void(int, int)> f = [&](int v, int k) { if (k >= best && v < n) return; if (v == n) { best = std::min(best, k); return; } for (int c = 0; c <= k && c < best; ++c) { bool ok = true; for (int u = 0; u < v; ++u) if ((a[v] >> u & 1) && col[u] == c) ok = false; if (ok) col[v] = c, f(v + 1, std::max(k, c + 1)); } }; f(0, 0); EQ(got, best); g.nontrivial(best >= 3 && best < n);
}
PBT(cliques_triangles, 4000, "a clique of at least 4 vertices and a non-edge") {
    int n = g.size(0, 11); auto e = gen_simple(g, n); g.note("n ", n, e); auto a = masks(n, e); Adj ad = adj_sh(g, n, e); std::multiset<int> got; suisen::enumerate_cliques(ad, [&](const std::vector<int>& c) { int m = 0; for (int v : c) { CK(!(m >> v & 1)); m |= 1 << v; } got.insert(m); }); std::multiset<int> want; int mx = 0; for (int m = 1; m < 1 << n; ++m) { bool ok = true; for (int i = 0; i < n && ok; ++i) if ((m >> i & 1) && (m & ~a[i] & ~(1 << i))) ok = false; if (ok) want.insert(m), mx = std::max(mx, __builtin_popcount(m)); } CKM(got == want, "enumerated cliques differ from all cliques");
    std::multiset<int> t, wt; suisen::enumerate_triangles(ad, [&](int x, int y, int z) { CK(x != y && y != z && z != x); t.insert(1 << x | 1 << y | 1 << z); }); for (int m : want) if (__builtin_popcount(m) == 3) wt.insert(m); CKM(t == wt, "enumerated triangles differ from all triangles"); g.nontrivial(mx >= 4 && (int)e.size() < n * (n - 1) / 2);
}
PBT(independent_set_clique_cover, 5000, "an odd cycle component or maximum degree at least 3") {
    int n = g.size(0, 13); auto e = gen_simple(g, n); g.note("n ", n, e); auto a = masks(n, e); Adj ad = adj_sh(g, n, e); int mis = 0, mc = 0; for (int m = 0; m < 1 << n; ++m) { bool is = true, cl = true; for (int i = 0; i < n; ++i) if (m >> i & 1) { if (m & a[i]) is = false; if (m & ~a[i] & ~(1 << i)) cl = false; } int c = __builtin_popcount(m); if (is) mis = std::max(mis, c); if (cl) mc = std::max(mc, c); }
    auto mk = [&](const std::vector<int>& v) { int m = 0; for (int x : v) { CK(0 <= x && x < n && !(m >> x & 1)); m |= 1 << x; } return m; }; int s = mk(suisen::maximum_independent_set(ad)); EQ(__builtin_popcount(s), mis); for (int i = 0; i < n; ++i) if (s >> i & 1) CK(!(s & a[i])); int c = mk(suisen::maximum_clique(ad)); EQ(__builtin_popcount(c), mc); for (int i = 0; i < n; ++i) if (c >> i & 1) CK(!(c & ~a[i] & ~(1 << i))); int w = mk(suisen::minimum_vertex_cover(ad)); EQ(__builtin_popcount(w), n - mis); for (auto [u, v] : e) CK((w >> u & 1) || (w >> v & 1));
    for (auto& r : ad) if (r.size() >= 3) g.nontrivial();
}
// multigraph of treewidth mostly at most 2
static E2 gen_tw2(Gen& g, int n) { E2 e; if (n < 2) { if (n && g.chance(1, 5)) e.emplace_back(0, 0); return e; } auto p = g.perm(n); std::vector<std::pair<int, int>> cur{ { 0, 1 } }; e.emplace_back(0, 1); int del = g.in(0, 3); for (int v = 2; v < n; ++v) { switch (g.raw(4)) { case 0: { int u = g.raw(v); e.emplace_back(u, v); cur.emplace_back(u, v); break; } case 1: break; default: { auto [a, b] = g.coin() ? cur.back() : g.pick(cur); e.emplace_back(a, v), e.emplace_back(b, v); cur.emplace_back(a, v), cur.emplace_back(b, v); } } }
    if (g.chance(1, 5)) for (int k = g.in(1, 3); k--;) e.emplace_back(g.raw(n), g.raw(n)); E2 f; for (auto x : e) if (!g.chance(del, 10)) { f.push_back(x); while (g.chance(1, 10)) f.push_back(g.coin() ? x : std::pair(x.second, x.first)); } for (auto& [a, b] : f) a = p[a], b = p[b]; g.shuffle(f); return f; }
static bool is_tw2(int n, const E2& e) { std::vector<std::set<int>> a(n); for (auto [u, v] : e) if (u != v) a[u].insert(v), a[v].insert(u); std::vector<bool> gone(n); for (int k = 0; k < n; ++k) { int x = -1; for (int v = 0; v < n; ++v) if (!gone[v] && a[v].size() <= 2) x = v; if (x < 0) return false; gone[x] = true; std::vector<int> nb(a[x].begin(), a[x].end()); for (int v : nb) a[v].erase(x); if (nb.size() == 2) a[nb[0]].insert(nb[1]), a[nb[1]].insert(nb[0]); } return true; }
// bags + tree adjacency form a tree decomposition of width at most 2
static void check_td(int n, const E2& e, const Adj& bag, const Adj& adj) {
    int k = bag.size(); int ec = 0; for (int i = 0; i < k; ++i) { ec += adj[i].size(); CK(bag[i].size() <= 3); for (size_t j = 0; j < bag[i].size(); ++j) { CK(0 <= bag[i][j] && bag[i][j] < n); if (j) CK(bag[i][j - 1] < bag[i][j]); } } EQ(ec, 2 * (k - 1)); auto d = bfs_dist(adj, 0); for (int x : d) CKM(x >= 0, "decomposition is not connected");
    auto has = [&](int i, int v) { return std::count(bag[i].begin(), bag[i].end(), v) > 0; }; for (auto [u, v] : e) { bool ok = false; for (int i = 0; i < k; ++i) if (has(i, u) && has(i, v)) ok = true; CKM(ok, "edge not inside any bag"); } for (int v = 0; v < n; ++v) { int c = 0, x = 0; for (int i = 0; i < k; ++i) if (has(i, v)) { ++c; for (int j : adj[i]) x += has(j, v); } CKM(c >= 1 && x == 2 * (c - 1), "bags of a vertex do not form a subtree"); }
}
PBT(tree_decomposition_tw2, 6000, "treewidth exactly 2 with at least 6 vertices") {
    int n = g.size(0, 11); auto e = gen_tw2(g, n); g.note("n ", n, e); bool adjctor = g.chance(1, 3); Adj ad(n); for (auto [u, v] : e) { ad[u].push_back(v); ad[v].push_back(u); } suisen::TreeDecompositionTW2 td = adjctor ? suisen::TreeDecompositionTW2(ad) : g.coin() ? suisen::TreeDecompositionTW2(n, e) : suisen::TreeDecompositionTW2(n); if (!adjctor) { suisen::TreeDecompositionTW2 t2(n); for (auto [u, v] : e) t2.add_edge(u, v); td = t2; }
    bool ok = is_tw2(n, e); auto r = td.decomp(); EQ(r.has_value(), ok); auto q = n ? td.nice_decomp() : std::nullopt; if (n) EQ(q.has_value(), ok); if (!ok) return; if (!n) { CK(r->empty()); return; }
    { Adj bag, adj; for (auto& x : *r) bag.push_back(x.bag), adj.push_back(x.adj); check_td(n, e, bag, adj); }
    { Adj bag, adj(q->size()); for (auto& x : *q) bag.push_back(x.bag); EQ((*q)[0].par, -1); for (int i = 0; i < (int)q->size(); ++i) for (int c : (*q)[i].ch) { EQ((*q)[c].par, i); adj[i].push_back(c), adj[c].push_back(i); } check_td(n, e, bag, adj); for (auto& x : *q) { CK(x.ch.size() <= 2); if (x.ch.size() == 2) { EQ(bag[x.ch[0]], x.bag); EQ(bag[x.ch[1]], x.bag); } else if (x.ch.size() == 1) { std::vector<int> d; auto& y = bag[x.ch[0]]; std::set_symmetric_difference(x.bag.begin(), x.bag.end(), y.begin(), y.end(), std::back_inserter(d)); EQ(d.size(), (size_t)1); } else EQ(x.bag.size(), (size_t)1); } suisen::TreeDecompositionTW2::assert_nice(*q, 0); }
    // count weighted independent sets through run_dp
    using M = std::map<std::vector<int>, Z>; // chosen vertices inside the bag -> weight
    std::set<std::pair<int, int>> es; bool loop = false; for (auto [u, v] : e) { es.emplace(u, v), es.emplace(v, u); loop = loop || u == v; } std::vector<int> wt = g.vec<int>(n, 1, 50); auto a = masks(n, e); Z want = 0; for (int m = 0; m < 1 << n; ++m) { Z w = 1; bool good = true; for (int i = 0; i < n; ++i) if (m >> i & 1) { if (m & a[i]) good = false; w *= wt[i]; } if (good) want += w; }
    auto nt = g.coin() ? suisen::NiceDecompTree(*q) : adjctor && !loop ? suisen::NiceDecompTree(ad) : suisen::NiceDecompTree(n, e); using DN = suisen::DecompNodeRooted; EQ((int)nt.get_node_types().size(), nt.size());
    auto ins = [](std::vector<int> v, int x) { v.push_back(x); std::sort(v.begin(), v.end()); return v; }; int cl = 0, ci = 0, cf = 0, cj = 0;
    for (int rep = 0; rep < 2; ++rep) { M res = nt.run_dp<M>([&](const DN& nd, int v) { ++cl; CK(nd.bag == std::vector<int>{ v }); M m; m[{}] = 1; if (!es.count({ v, v })) m[{ v }] = wt[v]; return m; },
        [&](const DN& nd, const DN& ch, const M& c, int v) { ++ci; auto b = ch.bag; EQ(ins(b, v), nd.bag); M m = c; for (auto& [s, w] : c) { bool good = !es.count({ v, v }); for (int x : s) if (es.count({ x, v })) good = false; if (good) m[ins(s, v)] += w * Z(wt[v]); } return m; },
        [&](const DN& nd, const DN& ch, const M& c, int v) { ++cf; EQ(ins(nd.bag, v), ch.bag); M m; for (auto& [s, w] : c) { auto t = s; t.erase(std::remove(t.begin(), t.end(), v), t.end()); m[t] += w; } return m; },
        [&](const DN& nd, const DN&, const M& x, const DN&, const M& y) { ++cj; M m; for (auto& [s, w] : x) if (y.count(s)) { Z k = w * y.at(s); for (int v : s) k /= Z(wt[v]); m[s] += k; } return m; });
        Z tot = 0; for (auto& [s, w] : res) tot += w; EQ(tot, want); }
    EQ((cl + ci + cf + cj), 2 * nt.size()); bool two = false; for (auto& x : *r) two = two || x.bag.size() == 3; g.nontrivial(two && n >= 6);
}
