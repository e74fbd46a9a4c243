#include "large.hpp"
#include <deque>
#include <queue>
#include <set>
#include <unordered_set>
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/segment_tree_graph.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
static const i64 INF = LLONG_MAX;
// long paths, grids, hubs or random graphs
static E2 big_edges(Bulk& b, int n, int kind) { E2 e; switch (kind) { case 0: for (int i = 1; i < n; ++i) e.emplace_back(i - 1, i); for (int i = 0; i < n / 4; ++i) { int u = b.raw(n); e.emplace_back(u, std::min(n - 1, u + 1 + int(b.raw(5)))); } break; case 1: { int w = 300; for (int i = 0; i < n; ++i) { if (i + 1 < n && i % w != w - 1) e.emplace_back(i, i + 1); if (i + w < n) e.emplace_back(i, i + w); } break; } case 2: for (int i = 1; i < n; ++i) e.emplace_back(b.raw(3), i); for (int i = 0; i < n; ++i) e.emplace_back(b.raw(n), b.raw(3)); break; default: for (int i = 0; i < n + n / 2; ++i) e.emplace_back(b.raw(n), b.raw(n)); } return e; }
static E2 relabel(Bulk& b, int n, E2 e) { auto p = b.perm(n); for (auto& [u, v] : e) u = p[u], v = p[v]; b.shuffle(e); return e; }
static std::vector<i64> dij(const std::vector<std::vector<std::pair<int, i64>>>& a, std::vector<int> src) { std::vector<i64> d(a.size(), INF); std::priority_queue<std::pair<i64, int>> q; for (int s : src) d[s] = 0, q.emplace(0, s); while (q.size()) { auto [x, u] = q.top(); q.pop(); if (-x != d[u]) continue; for (auto [v, w] : a[u]) if (d[u] + w < d[v]) d[v] = d[u] + w, q.emplace(-d[v], v); } return d; }
PBT(shortest_paths_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 100000), kind = g.raw(4); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); auto e = relabel(b, n, big_edges(b, n, kind)); i64 mx = g.pick<i64>({ 1, 10, 1000000000000LL }); bool undir = g.coin(); std::vector<std::vector<std::pair<int, i64>>> a(n), z(n); Adj ad = adj_of(n, e); for (auto [u, v] : e) { i64 c = b.range(0, mx), c1 = b.raw(2); a[u].emplace_back(v, c); z[u].emplace_back(v, c1); if (undir) a[v].emplace_back(u, c), z[v].emplace_back(u, c1); } int s = e[0].first; auto d = dij(a, { s }); suisen::dijkstra<i64> D(a, s); for (int t = 0; t < n; ++t) { EQ(D[t], d[t]); EQ(D.is_reachale(t), d[t] != INF); }
    for (int k = 0; k < 5; ++k) { int t = b.raw(n); if (d[t] == INF) continue; auto p = D.path_to(t); CK(p.front() == (unsigned)s && p.back() == (unsigned)t); i64 c = 0; for (size_t i = 1; i < p.size(); ++i) { i64 best = INF; for (auto [v, x] : a[p[i - 1]]) if ((unsigned)v == p[i]) best = std::min(best, x); CK(best != INF); c += best; } EQ(c, d[t]); }
    auto gr = [&](int u, auto f) { for (auto [v, c] : z[u]) f(v, c); }; std::vector<int> src{ s, int(b.raw(n)) }; auto dz = dij(z, src); suisen::BFS01 B(n, src, gr); suisen::MapBFS01<int> M(src, gr); for (int t = 0; t < n; ++t) { i64 w = dz[t] == INF ? INT_MAX : dz[t]; EQ((i64)B[t], w); EQ((i64)M[t], w); }
    suisen::BFS q(n, e); CK(q.distance(s) == bfs_dist(ad, s)); auto cc = q.connected_components(); std::vector<int> id(n, -1); size_t tot = 0; for (size_t i = 0; i < cc.size(); ++i) for (int v : cc[i]) { CK(id[v] < 0); id[v] = i; ++tot; } EQ((int)tot, n); for (auto [u, v] : e) EQ(id[u], id[v]); { std::vector<int> r(n); std::iota(r.begin(), r.end(), 0); auto f = [&](int x) { while (r[x] != x) x = r[x] = r[r[x]]; return x; }; int k = n; for (auto [u, v] : e) { u = f(u), v = f(v); if (u != v) r[u] = v, --k; } EQ((int)cc.size(), k); }
    suisen::ComplementBFS C(n, e); { std::vector<std::unordered_set<int>> un(n); for (auto [u, v] : e) un[u].insert(v), un[v].insert(u); std::vector<int> dist(n, -1), todo, qq{ s }; dist[s] = 0; for (int v = 0; v < n; ++v) if (v != s) todo.push_back(v); for (size_t i = 0; i < qq.size() && todo.size(); ++i) { std::vector<int> rest; for (int v : todo) if (un[qq[i]].count(v)) rest.push_back(v); else dist[v] = dist[qq[i]] + 1, qq.push_back(v); todo = rest; } CK(C.distance(s) == dist); size_t t2 = 0; for (auto& c : C.connected_components()) t2 += c.size(); EQ((int)t2, n); }
}
PBT(dag_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 150000), kind = g.raw(4); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); E2 e0 = big_edges(b, n, kind), f; for (auto [u, v] : e0) if (u != v) f.emplace_back(std::min(u, v), std::max(u, v)); auto p = b.perm(n); Adj a(n); std::vector<std::tuple<int, int, i64>> w; std::vector<i64> want(n, INF); want[0] = 0; b.shuffle(f); std::vector<std::vector<std::pair<int, i64>>> byu(n); for (auto [u, v] : f) { i64 c = b.range(-1000000000, 1000000000); byu[u].emplace_back(v, c); a[p[u]].push_back(p[v]); w.emplace_back(p[u], p[v], c); } for (int u = 0; u < n; ++u) if (want[u] != INF) for (auto [v, c] : byu[u]) want[v] = std::min(want[v], want[u] + c);
    suisen::topological_sort T(a); CK(T.is_dag()); auto o = T.sorted(); std::vector<int> pos(n, -1); EQ((int)o.size(), n); for (int i = 0; i < n; ++i) { CK(pos[o[i]] < 0); pos[o[i]] = i; } for (auto [u, v] : f) CK(pos[p[u]] < pos[p[v]]);
    auto d = suisen::single_source_shortest_path_dag(suisen::Graph<i64>::create_directed_graph(n, w), p[0]); for (int v = 0; v < n; ++v) EQ(d[p[v]], want[v]);
    using Gr = suisen::Graph<void>; auto cyc = [&](const E2& e, bool dir) { Gr x = dir ? Gr::create_directed_graph(n, e) : Gr::create_undirected_graph(n, e); return dir ? suisen::get_cycle_directed(x) : suisen::get_cycle_undirected(x); }; E2 pe; for (auto [u, v] : f) pe.emplace_back(p[u], p[v]); CK(!cyc(pe, true).has_value());
    int len = g.pick(std::vector<int>{ 1, 2, n / 2, n }); auto q = b.perm(n); E2 ce = pe; if (len < n) { ce.clear(); for (int i = 1; i < n; ++i) ce.emplace_back(q[i - 1], q[i]); ce.emplace_back(q[len - 1], q[0]); } else { ce.clear(); for (int i = 0; i < n; ++i) ce.emplace_back(q[i], q[(i + 1) % n]); } b.shuffle(ce); g.note("cycle ", len);
    auto c = cyc(ce, true); CK(c.has_value()); EQ((int)c->size(), len); std::vector<int> nx(n); for (int i = 0; i < len; ++i) nx[q[i]] = q[(i + 1) % len]; int cur = c->back(); for (int v : *c) { EQ(v, nx[cur]); cur = v; } Adj ca(n); for (auto [u, v] : ce) ca[u].push_back(v); CK(!suisen::topological_sort(ca).is_dag());
    auto cu = cyc(ce, false); CK(cu.has_value()); EQ((int)cu->size(), len); ce.clear(); for (int i = 1; i < n; ++i) ce.emplace_back(q[i], q[kind == 0 ? i - 1 : kind == 1 ? 0 : int(b.raw(i))]); CK(!cyc(ce, false).has_value());
}
PBT(csr_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 150000), kind = g.raw(4); Bulk b(g); g.nontrivial(); auto e = relabel(b, n, big_edges(b, n, kind)); std::vector<std::tuple<int, int, i64>> w; for (auto [u, v] : e) w.emplace_back(u, v, b.range(-1000000000000LL, 1000000000000LL)); auto x = suisen::Graph<i64>::create_directed_graph(n, w); std::vector<std::vector<std::pair<int, i64>>> m(n), r(n); for (auto [u, v, c] : w) m[u].emplace_back(v, c); for (int u = 0; u < n; ++u) for (auto [v, c] : m[u]) r[v].emplace_back(u, c);
    auto chk = [&](const auto& x, auto m) { EQ(x.size(), n); for (int u = 0; u < n; ++u) { std::vector<std::pair<int, i64>> l; for (const auto& t : x[u]) l.emplace_back(int(t), x.get_weight(t)); std::sort(l.begin(), l.end()); std::sort(m[u].begin(), m[u].end()); CK(l == m[u]); } }; chk(x, m); chk(x.reversed(), r); auto y = x; for (int u = 0; u < n; ++u) if (m[u].size() && b.coin()) { y[u].pop_back(); m[u].pop_back(); } y.shrink_to_fit(); chk(y, m);
    E2 ne; for (auto [u, v] : e) if (u != v) ne.emplace_back(u, v); auto un = suisen::Graph<void>::create_undirected_graph(n, ne); int s = b.raw(n); auto t = un.dfs_tree(s); std::vector<int> pre(n, -1), pst(n, -1); for (int i = 0; i < n; ++i) { CK(pre[t.pre_ord[i]] < 0 && pst[t.pst_ord[i]] < 0); pre[t.pre_ord[i]] = i, pst[t.pst_ord[i]] = i; } size_t cnt = 0; for (int u = 0; u < n; ++u) { for (int v : t.tree[u]) { EQ(t.par[v], u); CK(pre[u] < pre[v] && pst[v] < pst[u]); ++cnt; } for (int v : t.back[u]) { CK(pre[v] < pre[u] && pst[u] < pst[v]); ++cnt; } } EQ(cnt, ne.size());
}
PBT(functional_graph_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 100000), kind = g.raw(4); Bulk b(g); g.nontrivial(); std::vector<int> f(n); auto p = b.perm(n); for (int i = 0; i < n; ++i) f[p[i]] = kind == 0 ? p[(i + 1) % n] : kind == 1 ? p[std::max(0, i - 1)] : kind == 2 ? p[b.raw(n)] : p[i < n / 2 ? (i + 1) % (n / 2) : i - 1]; g.note("n ", n, " kind ", kind); suisen::FunctionalGraph F(f);
    // reference: distance to the loop and position on it
    std::vector<int> st(n), head(n), len(n), lv(n); for (int i = 0; i < n; ++i) if (!st[i]) { std::vector<int> path; int v = i; while (!st[v]) st[v] = 1, path.push_back(v), v = f[v]; if (st[v] == 1) { size_t k = 0; while (path[k] != v) ++k; int L = path.size() - k; for (size_t j = k; j < path.size(); ++j) head[path[j]] = 0, len[path[j]] = L, lv[path[j]] = path[j], st[path[j]] = 2; path.resize(k); } while (path.size()) { int u = path.back(); path.pop_back(); head[u] = head[f[u]] + 1; len[u] = len[f[u]]; lv[u] = lv[f[u]]; st[u] = 2; } }
    auto ps = F.infinite_paths(); for (int u = 0; u < n; ++u) { EQ(ps[u].head_v, u); EQ(ps[u].head_len, head[u]); EQ(ps[u].loop_v, lv[u]); EQ(ps[u].loop_len, len[u]); }
    std::vector<std::vector<int>> pw{ f }; for (int k = 1; k < 61; ++k) { std::vector<int> h(n); for (int u = 0; u < n; ++u) h[u] = pw.back()[pw.back()[u]]; pw.push_back(h); } auto it = [&](int u, i64 k) { for (int j = 0; k >> j; ++j) if (k >> j & 1) u = pw[j][u]; return u; };
    i64 k = g.pick<i64>({ 0, 1, n - 1, n, b.range(0, 2 * n), b.range(0, 1000000000000000000LL), 1000000000000000000LL }); auto ki = F.kth_iterate(k); for (int u = 0; u < n; ++u) EQ(ki[u], it(u, k));
    i64 mx = 1000000000000LL; auto D = F.doubling(mx); std::vector<i64> w(n); for (auto& x : w) x = b.raw(1000); auto DS = F.doubling<i64, add_ll, zero_ll>(100000, w); for (int q = 0; q < 5000; ++q) { int u = b.raw(n); i64 d = b.range(0, mx); EQ(D.query(u, d), it(u, d)); } for (int q = 0; q < 20; ++q) { int u = b.raw(n), d = b.in(0, 100000), v = u; i64 s = 0; for (int i = 0; i < d; ++i) s += w[v], v = f[v]; std::pair<int, i64> r = DS.query(u, d); EQ(r.first, v); EQ(r.second, s); }
}
PBT(segment_tree_graph_large, 3, "every case: more than 2^15 leaves") { // distances with range edges against a sweep that visits each vertex once
    int n = big_n(g, 100000), m = n / 2; Bulk b(g); g.nontrivial(); suisen::SegmentTreeGraph T(n); auto p = b.perm(n); int id0 = T.add_order_identity(), id1 = T.add_order(p); int N = T.size(); std::vector<std::vector<std::pair<int, int>>> a(N); T.add_edges_to_children([&](int u, int c) { a[u].emplace_back(c, 0); }); struct Q { int from, o, l, r; }; std::vector<Q> qs; std::vector<std::vector<Q>> by(n); size_t made = 0;
    for (int i = 0; i < m; ++i) { int from = b.raw(n), o = b.raw(2), l = b.raw(n + 1), r = std::min(n, l + int(b.raw(b.coin() ? 4 : 200))); T.add_edge(from, suisen::SegmentTreeGraph::SegmentNode{ o == 0 ? id0 : id1, l, r }, [&](int x, int y) { a[x].emplace_back(y, 1); ++made; }); by[from].push_back({ from, o, l, r }); } CKM(made <= size_t(m) * 40, "a range edge is split into more than 2 log n edges");
    int s = b.raw(n); std::vector<int> d(N, INT_MAX); std::deque<int> q{ s }; d[s] = 0; while (q.size()) { int u = q.front(); q.pop_front(); for (auto [v, c] : a[u]) if (d[u] + c < d[v]) { d[v] = d[u] + c; if (c) q.push_back(v); else q.push_front(v); } }
    std::vector<int> e(n, INT_MAX), pos(n); for (int i = 0; i < n; ++i) pos[p[i]] = i; std::set<int> un[2]; for (int i = 0; i < n; ++i) un[0].insert(i), un[1].insert(i); std::vector<int> fr{ s }; e[s] = 0; un[0].erase(s), un[1].erase(pos[s]); for (size_t i = 0; i < fr.size(); ++i) for (auto& x : by[fr[i]]) { auto& S = un[x.o]; std::vector<int> hit; for (auto it = S.lower_bound(x.l); it != S.end() && *it < x.r; ++it) hit.push_back(*it); for (int h : hit) { int v = x.o ? p[h] : h; e[v] = e[fr[i]] + 1; un[0].erase(v), un[1].erase(pos[v]); fr.push_back(v); } } for (int v = 0; v < n; ++v) EQ(d[v], e[v]);
}
