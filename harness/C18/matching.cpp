#include "common.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/assignment_problem.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
static int kuhn(int n, int m, const E2& e) { Adj a(n); for (auto [u, v] : e) a[u].push_back(v); std::vector<int> to(m, -1); int r = 0; for (int i = 0; i < n; ++i) { std::vector<bool> vis(m); std::function<bool(int)> f = [&](int u) { for (int v : a[u]) if (!vis[v]) { vis[v] = true; if (to[v] < 0 || f(to[v])) { to[v] = u; return true; } } return false; }; r += f(i); } return r; }
static E2 gen_bip(Gen& g, int n, int m) {
    E2 e; if (!n || !m) return e; int k = g.size(0, 2 * std::max(n, m) + 2); bool planted = g.coin();
    if (planted) { auto p = g.perm(std::max(n, m)); for (int i = 0; i < n; ++i) if (p[i] < m && !g.chance(1, 6)) e.emplace_back(i, p[i]); if (g.coin()) { // staircase: long augmenting paths
            for (int i = 0; i + 1 < n; ++i) if (p[i + 1] < m) e.emplace_back(i, p[i + 1]); } k = g.in(0, 4); }
    int hub = g.chance(1, 4) ? (int)g.in(1, 3) : 0;
    for (int i = 0; i < k; ++i) { int u = g.raw(n), v = g.raw(m); if (hub) { if (g.coin()) u = g.raw(std::min(n, hub)); else v = g.raw(std::min(m, hub)); } e.emplace_back(u, v); if (g.chance(1, 12)) { auto d = e[g.raw(e.size())]; e.push_back(d); } }
    g.shuffle(e); return e;
}
static void check_all(Gen& g, suisen::BipartiteMatching& b, int n, int m, const E2& e) {
    int f = kuhn(n, m, e); std::set<std::pair<int, int>> es(e.begin(), e.end()); std::vector<bool> dl(n), dr(m); int non_iso = 0; for (auto [u, v] : e) { if (!dl[u]) dl[u] = true, ++non_iso; if (!dr[v]) dr[v] = true, ++non_iso; }
    std::vector<int> ord{ 0, 1, 2, 3, 4 }; g.shuffle(ord); for (int o : ord) switch (o) {
    case 0: { EQ(b.solve(), f); for (int i = 0; i < n; ++i) if (b.right(i) != -1) EQ(b.left(b.right(i)), i); for (int j = 0; j < m; ++j) if (b.left(j) != -1) EQ(b.right(b.left(j)), j); break; }
    case 1: { auto x = b.max_matching(); EQ((int)x.size(), f); std::set<int> l, r; for (auto p : x) { CK(es.count(p)); l.insert(p.first), r.insert(p.second); } EQ((int)l.size(), f); EQ((int)r.size(), f); break; }
    case 2: { auto x = b.min_edge_cover(); std::vector<bool> cl(n), cr(m); for (auto p : x) { CK(es.count(p)); cl[p.first] = cr[p.second] = true; } CK(cl == dl); CK(cr == dr); EQ((int)x.size(), non_iso - f); break; }
    case 3: { auto x = b.min_vertex_cover(); std::vector<bool> c(n + m); for (int v : x) { CK(0 <= v && v < n + m && !c[v]); c[v] = true; } EQ((int)x.size(), f); for (auto [u, v] : e) CK(c[u] || c[n + v]); break; }
    default: { auto x = b.max_independent_set(); std::vector<bool> c(n + m); for (int v : x) { CK(0 <= v && v < n + m && !c[v]); c[v] = true; } EQ((int)x.size(), n + m - f); for (auto [u, v] : e) CK(!(c[u] && c[n + v])); }
    }
}
PBT(bipartite_matching, 8000, "a matching of at least 3 edges that is not perfect", 8, 16) {
    int n = g.size(0, 12), m = g.size(0, 12); auto e = gen_bip(g, n, m); g.note("n ", n, " m ", m, " ", e); suisen::BipartiteMatching b(n, m); EQ(b.left_size(), n); EQ(b.right_size(), m); EQ(b.size(), (std::pair<int, int>(n, m))); size_t k = 0; if (e.size() && g.chance(1, 3)) { size_t h = g.raw(e.size()); for (; k < h; ++k) b.add_edge(e[k].first, e[k].second); check_all(g, b, n, m, E2(e.begin(), e.begin() + h)); }
    for (; k < e.size(); ++k) b.add_edge(e[k].first, e[k].second); check_all(g, b, n, m, e); int f = kuhn(n, m, e); g.nontrivial(f >= 3 && f < std::max(n, m)); if (n && m) { auto h = b.reversed_graph(); Adj w(m); for (auto [u, v] : e) w[v].push_back(u); EQ((int)h.size(), m); for (int j = 0; j < m; ++j) EQ(sorted(h[j]), sorted(w[j])); }
}
PBT(bipartite_matching_large, 150, "at least 60 left vertices", 8, 12) {
    int n = g.in(1, 200), m = g.in(1, 200); auto e = gen_bip(g, n, m); if (g.coin()) for (int i = g.in(0, 3 * n); i--;) e.emplace_back(g.raw(n), g.raw(m)); suisen::BipartiteMatching b(n, m); for (auto [u, v] : e) b.add_edge(u, v); check_all(g, b, n, m, e); g.nontrivial(n >= 60);
}
PBT(edge_coloring, 6000, "at least 6 edges and maximum degree at least 3", 8, 12) {
    int n = g.size(0, 8), m = g.size(0, 8); auto e = gen_bip(g, n, m); if (n && m && g.chance(1, 3)) { e.clear(); int d = g.in(1, 7); for (int i = 0; i < d; ++i) { auto p = g.perm(std::max(n, m)); for (int j = 0; j < n; ++j) if (p[j] < m) e.emplace_back(j, p[j]); } } g.note("n ", n, " m ", m, e); suisen::EdgeColoringOfBipartiteGraph c(n, m); for (auto [u, v] : e) c.add_edge(u, v); std::vector<int> d(n + m); for (auto [u, v] : e) ++d[u], ++d[n + v]; int k = 0; for (int x : d) k = std::max(k, x); auto [q, col] = c.solve(); EQ(q, k); EQ(col.size(), e.size()); std::set<std::pair<int, int>> L, R; for (size_t i = 0; i < e.size(); ++i) { CK(0 <= col[i] && col[i] < k); CKM(L.emplace(e[i].first, col[i]).second, "two edges of a left vertex share a colour"); CKM(R.emplace(e[i].second, col[i]).second, "two edges of a right vertex share a colour"); } g.nontrivial(e.size() >= 6 && k >= 3);
}
PBT(dulmage_mendelsohn, 6000, "at least two middle blocks or a middle block of at least 2 pairs", 2, 12) {
    int n = g.size(0, 9), m = g.size(0, 9); auto e = gen_bip(g, n, m); g.note("n ", n, " m ", m, e); suisen::BipartiteMatching b(n, m); for (auto [u, v] : e) b.add_edge(u, v); auto w = suisen::dulmage_mendelsohn_decomposition(b); int k = w.size(); CK(k >= 2); std::vector<int> bl(n, -1), br(m, -1); for (int c = 0; c < k; ++c) { for (int x : w[c].first) { CK(0 <= x && x < n && bl[x] < 0); bl[x] = c; } for (int x : w[c].second) { CK(0 <= x && x < m && br[x] < 0); br[x] = c; } } for (int x : bl) CK(x >= 0); for (int x : br) CK(x >= 0); for (auto [u, v] : e) CKM(bl[u] <= br[v], "edge against the block order");
    auto surplus = [&](const std::vector<int>& X, const std::vector<int>& Y, bool left, bool full) { // every non-empty (proper unless full) X' has more than |X'| neighbours in Y
        std::map<int, int> idx; for (size_t i = 0; i < Y.size(); ++i) idx[Y[i]] = i; std::vector<int> nb(X.size()); for (size_t i = 0; i < X.size(); ++i) for (auto [u, v] : e) { int a = left ? u : v, c = left ? v : u; if (a == X[i] && idx.count(c)) nb[i] |= 1 << idx[c]; } int s = X.size(); for (int mk = 1; mk < 1 << s; ++mk) { int q = 0; for (int i = 0; i < s; ++i) if (mk >> i & 1) q |= nb[i]; int pc = __builtin_popcount(q), px = __builtin_popcount(mk); if (mk == (1 << s) - 1 && !full) CK(pc >= px); else CKM(pc > px, "block is reducible"); } };
    auto& W0 = w.front(); auto& Wk = w.back(); CK(W0.second.size() > W0.first.size() || (W0.first.empty() && W0.second.empty())); surplus(W0.first, W0.second, true, true); CK(Wk.first.size() > Wk.second.size() || (Wk.first.empty() && Wk.second.empty())); surplus(Wk.second, Wk.first, false, true); for (int c = 1; c + 1 < k; ++c) { CK(w[c].first.size()); EQ(w[c].first.size(), w[c].second.size()); surplus(w[c].first, w[c].second, true, false); if (w[c].first.size() >= 2) g.nontrivial(); } g.nontrivial(k >= 4);
}
PBT(assignment_problem, 4000, "at least 3 rows with costs of both signs") {
    int n = g.size(0, 6); i64 lim = g.pick(std::vector<i64>{ 1, 5, 100, 1000000000 }); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); bool neg = g.coin(); for (auto& r : a) for (auto& x : r) x = g.range(neg ? -lim : 0, lim); if (g.chance(1, 4)) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (i64)(i + 1) * (j + 1); g.note(a); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); i64 best = LLONG_MAX; do { i64 s = 0; for (int i = 0; i < n; ++i) s += a[i][p[i]]; best = std::min(best, s); } while (std::next_permutation(p.begin(), p.end()));
    auto chk = [&](auto r) { auto [c, q] = r; EQ((i64)c, best); EQ((int)q.size(), n); std::vector<bool> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { CK(0 <= q[i] && q[i] < n && !u[q[i]]); u[q[i]] = true; s += a[i][q[i]]; } EQ(s, best); }; chk(suisen::assignment_problem(a)); if (lim <= 1000) { std::vector<std::vector<int>> b(n); for (int i = 0; i < n; ++i) b[i].assign(a[i].begin(), a[i].end()); chk(suisen::assignment_problem(b)); } g.nontrivial(n >= 3 && neg);
}
PBT(assignment_problem_large, 150, "at least 12 rows") { // optimality certificate: no improving exchange cycle
    int n = g.in(1, 40); i64 lim = g.pick(std::vector<i64>{ 3, 100, 1000000000 }); std::vector<std::vector<i64>> a(n, std::vector<i64>(n)); for (auto& r : a) for (auto& x : r) x = g.range(-lim, lim); auto [c, q] = suisen::assignment_problem(a); std::vector<bool> u(n); i64 s = 0; for (int i = 0; i < n; ++i) { CK(0 <= q[i] && q[i] < n && !u[q[i]]); u[q[i]] = true; s += a[i][q[i]]; } EQ(s, c); std::vector<std::vector<i64>> d(n, std::vector<i64>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = a[i][q[j]] - a[i][q[i]]; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], std::max(d[i][k] + d[k][j], (i64)-4e18 / 4)); for (int i = 0; i < n; ++i) CKM(d[i][i] >= 0, "a cyclic exchange improves the assignment"); g.nontrivial(n >= 12);
}
