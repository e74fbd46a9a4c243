#include "common.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/segment_tree_graph.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
static E2 gen_edges(Gen& g, int n, int maxm, bool loops = true) { E2 e; if (!n) return e; int m = g.size(0, maxm); for (int i = 0; i < m; ++i) { int u = g.raw(n), v = g.raw(n); if (!loops && u == v) { if (n == 1) continue; v = (u + 1 + g.raw(n - 1)) % n; } e.emplace_back(u, v); if (e.size() > 1 && g.chance(1, 10)) e.push_back(e[g.raw(e.size())]); } return e; }
static std::vector<std::vector<int>> norm(std::vector<std::vector<int>> c) { for (auto& x : c) std::sort(x.begin(), x.end()); std::sort(c.begin(), c.end()); return c; }
static std::vector<std::vector<int>> comps(const Adj& a) { int n = a.size(); std::vector<bool> s(n); std::vector<std::vector<int>> r; for (int i = 0; i < n; ++i) if (!s[i]) { auto d = bfs_dist(a, i); r.emplace_back(); for (int v = 0; v < n; ++v) if (d[v] >= 0) s[v] = true, r.back().push_back(v); } return norm(r); }
static std::vector<int> multi(const Adj& a, const std::vector<int>& src) { std::vector<int> d(a.size(), -1); for (int s : src) { auto e = bfs_dist(a, s); for (size_t i = 0; i < a.size(); ++i) if (e[i] >= 0 && (d[i] < 0 || e[i] < d[i])) d[i] = e[i]; } return d; }
PBT(bfs, 6000, "at least 5 vertices and 4 edges", 8, 21) {
    int n = g.size(0, 25); auto e = gen_edges(g, n, 40); g.note("n ", n, e); g.nontrivial(n >= 5 && e.size() >= 4); Adj a = adj_of(n, e); suisen::BFS b = g.coin() ? suisen::BFS(n, e) : suisen::BFS(a); suisen::ComplementBFS c = g.coin() ? suisen::ComplementBFS(n, e) : suisen::ComplementBFS(a); Adj k(n); for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) if (u != v && std::find(a[u].begin(), a[u].end(), v) == a[u].end()) k[u].push_back(v);
    EQ(norm(b.connected_components()), comps(a)); EQ(norm(c.connected_components()), comps(k)); if (n) { int s = g.raw(n); EQ(b.distance(s), bfs_dist(a, s)); EQ(c.distance(s), bfs_dist(k, s)); } std::vector<int> src; if (n) for (int i = g.in(0, 4); i--;) src.push_back(g.raw(n)); EQ(b.distance(src), multi(a, src)); EQ(c.distance(src), multi(k, src));
}
PBT(bfs_complement_dense, 3000, "a complement with at least two components", 8, 12) { // dense input: sparse complement
    int n = g.size(1, 14); int pr = g.in(5, 9); E2 e; for (int u = 0; u < n; ++u) for (int v = 0; v < u; ++v) if (g.chance(pr, 10)) e.emplace_back(u, v); g.shuffle(e); Adj a = adj_of(n, e), k(n); for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) if (u != v && std::find(a[u].begin(), a[u].end(), v) == a[u].end()) k[u].push_back(v);
    suisen::ComplementBFS c(n); for (auto [u, v] : e) c.add_edge(u, v); auto w = comps(k); g.nontrivial(w.size() >= 2); g.note("n ", n, e); EQ(norm(c.connected_components()), w); for (int s = 0; s < n; ++s) EQ(c.distance(s), bfs_dist(k, s));
}
static const i64 INF = LLONG_MAX;
static std::vector<i64> bellman(int n, const std::vector<std::tuple<int, int, i64>>& e, const std::vector<int>& src) { std::vector<i64> d(n, INF); for (int s : src) d[s] = 0; for (bool ch = true; ch;) { ch = false; for (auto [u, v, c] : e) if (d[u] != INF && d[u] + c < d[v]) d[v] = d[u] + c, ch = true; } return d; }
PBT(dijkstra_bfs01, 6000, "at least 5 vertices, 5 edges and a reachable vertex two edges away", 8, 12) {
    int n = g.size(1, 25); auto e = gen_edges(g, n, 60); std::vector<std::tuple<int, int, i64>> w, z; std::vector<std::vector<std::pair<int, i64>>> a(n), b(n); i64 mx = g.pick<i64>({ 1, 3, 10, 1000000000000LL }); for (auto [u, v] : e) { i64 c = g.range(0, mx); w.emplace_back(u, v, c); a[u].emplace_back(v, c); i64 c1 = g.raw(2); z.emplace_back(u, v, c1); b[u].emplace_back(v, c1); } int s = g.raw(n); g.note("n ", n, " s ", s, " w ", w, " z ", z);
    auto d = bellman(n, w, { s }); suisen::dijkstra<i64> D(a, s); g.nontrivial(n >= 5 && e.size() >= 5 && std::count_if(d.begin(), d.end(), [](i64 x) { return x != INF; }) >= 3);
    for (int t = 0; t < n; ++t) { EQ(D[t], d[t]); EQ(D.is_reachale(t), d[t] != INF); EQ(D.is_unreachable(t), d[t] == INF); if (d[t] != INF) { auto p = D.path_to(t); CK(p.front() == (unsigned)s && p.back() == (unsigned)t); i64 c = 0; for (size_t i = 1; i < p.size(); ++i) { i64 best = INF; for (auto [v, x] : a[p[i - 1]]) if ((unsigned)v == p[i]) best = std::min(best, x); CK(best != INF); c += best; } EQ(c, d[t]); } }
    suisen::dijkstra<unsigned> U(n, [&](int u, unsigned du, auto f) { for (auto [v, c] : b[u]) f(v, du + (unsigned)c); }, s); auto dz = bellman(n, z, { s }); for (int t = 0; t < n; ++t) EQ((U.is_unreachable(t) ? INF : (i64)U[t]), dz[t]);
    std::vector<int> src{ s }; for (int i = g.in(0, 3); i--;) src.push_back(g.raw(n)); auto gr = [&](int u, auto f) { for (auto [v, c] : b[u]) f(v, c); };
    auto same = [&](const auto& B, const std::vector<i64>& q) { for (int t = 0; t < n; ++t) { EQ(B.is_reachable(t), q[t] != INF); EQ(B.is_unreachable(t), q[t] == INF); EQ((i64)B[t], (q[t] == INF ? (i64)INT_MAX : q[t])); } };
    same(suisen::BFS01(n, s, gr), dz); auto dm = bellman(n, z, src); same(suisen::BFS01(n, src, gr), dm); same(suisen::MapBFS01<int>(s, gr), dz); same(suisen::MapBFS01<int>(src, gr), dm);
}
PBT(dag_shortest_toposort, 6000, "at least 5 vertices and 5 edges", 8, 12) {
    int n = g.size(1, 25); auto e = gen_edges(g, n, 50, false); auto rk = g.perm(n); bool dag = g.chance(3, 4); std::vector<std::tuple<int, int, i64>> w; E2 f; Adj a(n); for (auto [u, v] : e) { if (dag && rk[u] > rk[v]) std::swap(u, v); w.emplace_back(u, v, g.range(-20, 20)); f.emplace_back(u, v); a[u].push_back(v); } g.note("n ", n, w); g.nontrivial(n >= 5 && e.size() >= 5);
    suisen::topological_sort T(a); std::vector<std::vector<bool>> R(n, std::vector<bool>(n)); bool cyc = false; for (int s = 0; s < n; ++s) { std::vector<int> q; for (int v : a[s]) if (!R[s][v]) R[s][v] = true, q.push_back(v); for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (!R[s][v]) R[s][v] = true, q.push_back(v); cyc = cyc || R[s][s]; } EQ(T.is_dag(), !cyc);
    if (!cyc) { auto o = T.sorted(); EQ((int)o.size(), n); std::vector<int> pos(n, -1); for (int i = 0; i < n; ++i) { EQ(T[i], o[i]); CK(o[i] >= 0 && o[i] < n && pos[o[i]] < 0); pos[o[i]] = i; } for (auto [u, v] : f) CK(pos[u] < pos[v]);
        std::vector<int> in(n); for (auto [u, v] : f) ++in[v]; std::vector<int> ss; for (int v = 0; v < n; ++v) if (!in[v]) ss.push_back(v); int s = g.pick(ss); g.note("s ", s); auto want = bellman(n, w, { s }); EQ(suisen::single_source_shortest_path_dag(suisen::Graph<i64>::create_directed_graph(n, w), s), want);
        for (auto& t : w) std::get<2>(t) = 1; want = bellman(n, w, { s }); auto got = suisen::single_source_shortest_path_dag(suisen::Graph<void>::create_directed_graph(n, f), s); for (int v = 0; v < n; ++v) EQ((i64)got[v], (want[v] == INF ? (i64)INT_MAX : want[v])); }
}
PBT(minmax_floyd, 1500, "at least 5 vertices", 8, 19) {
    int n = g.chance(1, 20) ? g.in(60, 70) : g.size(0, 20); i64 mx = g.pick<i64>({ 1, 5, 1000000000000LL }); std::vector<std::vector<i64>> c(n, std::vector<i64>(n)); for (auto& r : c) for (auto& x : r) x = g.range(-mx, mx); g.nontrivial(n >= 5); g.note(c); auto go = [&](auto cmp) { auto d = c; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { i64 x = std::max(d[i][k], d[k][j], cmp); if (cmp(x, d[i][j])) d[i][j] = x; } EQ(suisen::minmax_floyd_warshall(c, cmp), d); }; go(std::less<i64>{}); go(std::greater<i64>{});
}
PBT(remove_multiedges, 3000, "a repeated edge", 8, 12) {
    int n = g.size(0, 12); auto e = gen_edges(g, n, 40); Adj a = adj_of(n, e, true), b = a, w(n); for (int u = 0; u < n; ++u) for (int v : a[u]) if (std::find(w[u].begin(), w[u].end(), v) == w[u].end()) w[u].push_back(v); else g.nontrivial(); suisen::remove_multiedges(b); for (int u = 0; u < n; ++u) EQ(sorted(b[u]), sorted(w[u]));
}
PBT(segment_tree_graph, 4000, "at least 3 leaves and a range of at least 2", 8, 12) {
    int n = g.size(1, 20); suisen::SegmentTreeGraph T(n); std::vector<std::vector<int>> ord; for (int k = g.in(1, 3); k--;) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (g.coin()) EQ(T.add_order_identity(), (int)ord.size()); else { g.shuffle(p); EQ(T.add_order(p), (int)ord.size()); } ord.push_back(p); g.note("order ", p); }
    int N = T.size(); EQ(N, n + (n - 1) * (int)ord.size()); Adj a(N), a3(N); T.add_edges_to_children([&](int p, int c) { CK(0 <= p && p < N && 0 <= c && c < N); a[p].push_back(c); }); T.add_edges_to_children([&](int p, int l, int r) { a3[p].push_back(l); a3[p].push_back(r); }); for (int v = 0; v < N; ++v) EQ(sorted(a[v]), sorted(a3[v]));
    for (int v = 0; v < N; ++v) { EQ(T.is_segment_node(v), v >= n); auto d = bfs_dist(a, v); if (v >= n && a[v].size()) { auto s = T.get_segment_node(v); auto s2 = T[v]; EQ(s2.l, s.l); EQ(s2.r, s.r); CK(0 <= s.order_id && s.order_id < (int)ord.size() && 0 <= s.l && s.l < s.r && s.r <= n); std::vector<int> want(ord[s.order_id].begin() + s.l, ord[s.order_id].begin() + s.r), got; for (int u = 0; u < n; ++u) if (d[u] >= 0) got.push_back(u); EQ(got, sorted(want)); } }
    for (int q = 8; q--;) { int o = g.raw(ord.size()); auto [l, r] = g.seg(n); int from = g.raw(n); if (n >= 3 && r - l >= 2) g.nontrivial(); std::set<int> got; int cnt = 0; g.note("range ", o, " ", l, " ", r); T.add_edge(from, suisen::SegmentTreeGraph::SegmentNode{ o, l, r }, [&](int x, int y) { EQ(x, from); CK(0 <= y && y < N); CK(y < n || a[y].size()); ++cnt; auto d = bfs_dist(a, y); for (int u = 0; u < n; ++u) if (d[u] >= 0) got.insert(u); }); EQ((std::vector<int>(got.begin(), got.end())), sorted(std::vector<int>(ord[o].begin() + l, ord[o].begin() + r))); CK(cnt <= 2 * 6); }
}
