#include "large.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/assignment_problem.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
static E2 big_bip(Bulk& b, int n, int m, int kind) { E2 e; switch (kind) { case 0: for (int i = 0; i < std::min(n, m); ++i) { e.emplace_back(i, i); if (i + 1 < m) e.emplace_back(i, i + 1); } break; case 1: for (int i = 0; i < n; ++i) for (int k = b.raw(4); k--;) e.emplace_back(i, b.raw(m)); break; case 2: for (int i = 0; i < n; ++i) e.emplace_back(i, b.raw(std::max(1, m / 10))); for (int j = 0; j < m; ++j) if (b.coin()) e.emplace_back(b.raw(std::max(1, n / 10)), j); break; default: { auto p = b.perm(std::max(n, m)); for (int i = 0; i < n; ++i) { if (p[i] < m) e.emplace_back(i, p[i]); for (int k = 0; k < 2; ++k) e.emplace_back(i, b.raw(m)); } } } auto p = b.perm(n), q = b.perm(m); for (auto& [u, v] : e) u = p[u], v = q[v]; b.shuffle(e); return e; }
PBT(bipartite_matching_huge, 4, "every case: tens of thousands of vertices on each side") { // optimality by a vertex cover of equal size
    int n = big_n(g, 100000), m = g.coin() ? n : big_n(g, 100000), kind = g.raw(4); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m, " kind ", kind); auto e = big_bip(b, n, m, kind); suisen::BipartiteMatching M(n, m); for (auto [u, v] : e) M.add_edge(u, v); int f = M.solve(); auto mm = M.max_matching(); EQ((int)mm.size(), f); std::set<std::pair<int, int>> es(e.begin(), e.end()); std::vector<bool> ul(n), ur(m), c(n + m); for (auto [u, v] : mm) { CK(es.count({ u, v })); CK(!ul[u] && !ur[v]); ul[u] = ur[v] = true; }
    auto vc = M.min_vertex_cover(); EQ((int)vc.size(), f); for (int v : vc) c[v] = true; for (auto [u, v] : e) CK(c[u] || c[n + v]); auto is = M.max_independent_set(); EQ((int)is.size(), n + m - f); std::vector<bool> d(n + m); for (int v : is) { CK(!d[v]); d[v] = true; } for (auto [u, v] : e) CK(!(d[u] && d[n + v])); auto ec = M.min_edge_cover(); std::vector<bool> dl(n + m), cv(n + m); int non = 0; for (auto [u, v] : e) dl[u] = dl[n + v] = true; for (bool x : dl) non += x; for (auto [u, v] : ec) { CK(es.count({ u, v })); cv[u] = cv[n + v] = true; } CK(cv == dl); EQ((int)ec.size(), non - f);
    auto w = suisen::dulmage_mendelsohn_decomposition(M); int k = w.size(); std::vector<int> bl(n, -1), br(m, -1); for (int i = 0; i < k; ++i) { for (int x : w[i].first) { CK(bl[x] < 0); bl[x] = i; } for (int x : w[i].second) { CK(br[x] < 0); br[x] = i; } if (0 < i && i + 1 < k) EQ(w[i].first.size(), w[i].second.size()); } for (int x : bl) CK(x >= 0); for (int x : br) CK(x >= 0); for (auto [u, v] : e) CK(bl[u] <= br[v]); for (auto [u, v] : mm) EQ(bl[u], br[v]); // any maximum matching stays inside the blocks
    CK(w[0].second.size() > w[0].first.size() || (w[0].first.empty() && w[0].second.empty())); CK(w[k - 1].first.size() > w[k - 1].second.size() || (w[k - 1].first.empty() && w[k - 1].second.empty()));
}
PBT(edge_coloring_large, 3, "every case: more than 2^15 edges") {
    int n = g.in(100, 40000), m = g.in(100, 40000), kind = g.raw(4); Bulk b(g); g.nontrivial(); E2 e; if (kind == 0) { int d = 20, s = std::min(n, m); n = m = std::min(s, 3000); for (int i = 0; i < d; ++i) { auto p = b.perm(n); for (int j = 0; j < n; ++j) e.emplace_back(j, p[j]); } } else if (kind == 1) { for (int i = 0; i < 40000; ++i) e.emplace_back(b.raw(n), b.raw(m)); } else e = big_bip(b, n, m, kind == 2 ? 0 : 1); g.note("n ", n, " m ", m, " kind ", kind); suisen::EdgeColoringOfBipartiteGraph c(n, m); std::vector<int> d(n + m); for (auto [u, v] : e) c.add_edge(u, v), ++d[u], ++d[n + v]; int k = *std::max_element(d.begin(), d.end()); auto [q, col] = c.solve(); EQ(q, k); std::vector<std::pair<int, int>> L; for (size_t i = 0; i < e.size(); ++i) { CK(0 <= col[i] && col[i] < k); L.emplace_back(e[i].first, col[i]); L.emplace_back(n + e[i].second, col[i]); } std::sort(L.begin(), L.end()); CKM(std::adjacent_find(L.begin(), L.end()) == L.end(), "two edges at a vertex share a colour");
}
PBT(assignment_problem_huge, 2, "every case: more than 200 rows") { // dual certificate recovered by Bellman-Ford on the exchange graph
    int n = g.in(200, 300); i64 lim = g.pick(std::vector<i64>{ 3, 1000, 1000000000 }); Bulk b(g); g.nontrivial(); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); for (auto& r : a) for (auto& x : r) x = b.range(-lim, lim); if (g.chance(1, 3)) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (i64)(i + 1) * (j + 1); auto [c, q] = suisen::assignment_problem(a); std::vector<bool> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { CK(0 <= q[i] && q[i] < n && !u[q[i]]); u[q[i]] = true; s += a[i][q[i]]; } EQ(s, c);
    std::vector<i64> d(n); bool ch = true; for (int it = 0; it <= n && ch; ++it) { ch = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { i64 w = a[i][q[j]] - a[i][q[i]]; if (d[i] + w < d[j]) d[j] = d[i] + w, ch = true; } } CKM(!ch, "a cyclic exchange improves the assignment");
}
template <suisen::MCFPotentialInitializer I> static void mcf(Gen& g) { // optimality: no augmenting path and no negative residual cycle
    int n = g.in(200, 700), m = 4 * n; bool dag = I == suisen::DAG; Bulk b(g); g.nontrivial(); i64 lim = g.pick(std::vector<i64>{ 10, 1000000 }); auto pt = b.vec<i64>(n, -lim, lim); suisen::MinCostFlow<i64, i64, I> f(n); int s = 0, t = n - 1; for (int i = 0; i < m; ++i) { int u = b.raw(n), v = b.raw(8) ? std::max(0, std::min(n - 1, u + b.in(-20, 20))) : int(b.raw(n)); if (u == v) continue; if (dag && u > v) std::swap(u, v); i64 c = b.range(0, lim); if (I == suisen::BELLMAN_FORD) c += pt[v] - pt[u]; if (dag) c = b.range(-lim, lim); f.add_edge(u, v, b.range(0, 1000), c); }
    auto sl = f.min_cost_max_flow_slope(s, t); auto es = f.get_edges(); std::vector<i64> ex(n); i64 cost = 0; struct R { int u, v; i64 w; }; std::vector<R> r; for (auto& x : es) { CK(0 <= x.flow && x.flow <= x.cap); ex[x.from] -= x.flow, ex[x.to] += x.flow; cost += x.flow * x.cost; if (x.flow < x.cap) r.push_back({ x.from, x.to, x.cost }); if (x.flow) r.push_back({ x.to, x.from, -x.cost }); } for (int v = 0; v < n; ++v) if (v != s && v != t) EQ(ex[v], 0); EQ(ex[t], (i64)sl.back().first); EQ(cost, (i64)sl.back().second); for (size_t i = 0; i + 2 < sl.size(); ++i) CK(__int128(sl[i + 1].second - sl[i].second) * (sl[i + 2].first - sl[i + 1].first) < __int128(sl[i + 2].second - sl[i + 1].second) * (sl[i + 1].first - sl[i].first));
    std::vector<i64> d(n); bool ch = true; for (int it = 0; it <= n && ch; ++it) { ch = false; for (auto& x : r) if (d[x.u] + x.w < d[x.v]) d[x.v] = d[x.u] + x.w, ch = true; } CKM(!ch, "the residual graph has a negative cycle"); Adj a(n); for (auto& x : r) a[x.u].push_back(x.v); CKM(bfs_dist(a, s)[t] < 0, "the flow is not maximum");
}
PBT(mcf_bellman_ford_large, 3, "every case: at least 100 vertices and 400 edges") { mcf<suisen::BELLMAN_FORD>(g); }
PBT(mcf_dag_large, 3, "every case: at least 100 vertices and 400 edges") { mcf<suisen::DAG>(g); }
PBT(mcf_dijkstra_large, 3, "every case: at least 100 vertices and 400 edges") { mcf<suisen::DIJKSTRA>(g); }
PBT(project_selection_large, 3, "every case: a chain of at least 1000 items") { // minimum along a chain by dynamic programming
    int n = g.in(1000, 5000); Bulk b(g); g.nontrivial(); i64 lim = 1000000000; suisen::ProjectSelection<i64> p(n); std::vector<std::array<i64, 2>> u(n); std::vector<std::array<std::array<i64, 2>, 2>> w(n); auto q = b.perm(n); for (int i = 0; i < n; ++i) { u[i] = { b.range(-lim, lim), b.range(-lim, lim) }; p.add_cost_0(q[i], u[i][0]); p.add_cost_1(q[i], u[i][1]); if (i) { i64 x = b.range(0, lim); w[i] = {}; switch (b.raw(4)) { case 0: p.add_cost_01(q[i - 1], q[i], x); w[i][0][1] = x; break; case 1: p.add_cost_10(q[i - 1], q[i], x); w[i][1][0] = x; break; case 2: p.add_profit_same(q[i - 1], q[i], x); w[i][0][0] = w[i][1][1] = -x; break; default: p.add_profit_11(q[i - 1], q[i], x); w[i][1][1] = -x; } } }
    std::array<i64, 2> d = u[0]; for (int i = 1; i < n; ++i) { std::array<i64, 2> e; for (int y = 0; y < 2; ++y) e[y] = u[i][y] + std::min(d[0] + w[i][0][y], d[1] + w[i][1][y]); d = e; } auto [c, sel] = p.min_cost(); EQ(c, std::min(d[0], d[1])); i64 s = 0; for (int i = 0; i < n; ++i) { s += u[i][sel[q[i]]]; if (i) s += w[i][sel[q[i - 1]]][sel[q[i]]]; } EQ(s, c);
}
PBT(k_project_selection_large, 3, "every case: a chain of at least 50 items") {
    int n = g.in(50, 300); Bulk b(g); g.nontrivial(); i64 lim = 1000000; std::vector<int> ks(n); for (auto& k : ks) k = b.in(1, 8); suisen::KProjectSelection<i64> p(ks); std::vector<std::vector<i64>> u(n); std::vector<std::vector<std::vector<i64>>> w(n); for (int i = 0; i < n; ++i) { u[i] = b.vec<i64>(ks[i], -lim, lim); p.add_cost(i, u[i]); if (i) { auto& f = w[i]; f.assign(ks[i - 1], std::vector<i64>(ks[i])); for (int x = 0; x < ks[i - 1]; ++x) for (int y = 0; y < ks[i]; ++y) f[x][y] = x && y ? f[x - 1][y] + f[x][y - 1] - f[x - 1][y - 1] - b.range(0, lim) : b.range(-lim, lim); p.add_cost(i - 1, i, f); } }
    auto d = u[0]; for (int i = 1; i < n; ++i) { std::vector<i64> e(ks[i], LLONG_MAX); for (int y = 0; y < ks[i]; ++y) for (int x = 0; x < ks[i - 1]; ++x) e[y] = std::min(e[y], d[x] + w[i][x][y] + u[i][y]); d = e; } auto [c, sel] = p.min_cost(); EQ(c, *std::min_element(d.begin(), d.end())); i64 s = 0; for (int i = 0; i < n; ++i) { s += u[i][sel[i]]; if (i) s += w[i][sel[i - 1]][sel[i]]; } EQ(s, c);
}
