#include "common.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
static E2 gen_edges(Gen& g, int n, bool loops) { E2 e; if (!n) return e; int m = g.size(0, g.coin() ? n + 2 : 2 * n); if (g.coin() && n > 1) for (auto p : g.tree(n)) if (!g.chance(1, 6)) e.push_back(p); if (e.size()) m = g.in(0, 5); for (int i = 0; i < m; ++i) { int u = g.raw(n), v = g.raw(n); if (!loops && u == v) { if (n == 1) continue; v = (u + 1 + g.raw(n - 1)) % n; } e.emplace_back(u, v); if (g.chance(1, 10)) { auto d = e[g.raw(e.size())]; e.push_back(d); } } g.shuffle(e); return e; }
static int ncomp(int n, const E2& e, int skip_edge, int skip_v, std::vector<int>* id = nullptr) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); auto f = [&](int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; }; for (int i = 0; i < (int)e.size(); ++i) if (i != skip_edge && e[i].first != skip_v && e[i].second != skip_v) p[f(e[i].first)] = f(e[i].second); int c = 0; for (int v = 0; v < n; ++v) c += v != skip_v && f(v) == v; if (id) { id->resize(n); for (int v = 0; v < n; ++v) (*id)[v] = f(v); } return c; }
// every build goes through one of the two ways of constructing, possibly in two rounds
template <class T> static T make(Gen& g, int n, const E2& e) { if (g.coin()) return T(n, e); T t(n); size_t k = 0; if (e.size() && g.chance(1, 3)) { size_t h = g.raw(e.size()); for (; k < h; ++k) EQ(t.add_edge(e[k].first, e[k].second), (int)k); t.build(); } for (; k < e.size(); ++k) EQ(t.add_edge(e[k].first, e[k].second), (int)k); t.build(); return t; }
template <class L> static std::pair<std::vector<int>, std::vector<int>> low_check(int n, const E2& e, const L& l) { // returns bridges, articulation points
    int c = ncomp(n, e, -1, -1); EQ(l.connected_component_num(), c); EQ(l.vertex_num(), n); EQ(l.edge_num(), (int)e.size()); EQ(l.edges(), e); std::vector<int> br, ar; for (int i = 0; i < (int)e.size(); ++i) { int k = ncomp(n, e, i, -1); EQ(l.edge(i), e[i]); if (k > c) br.push_back(i); auto [u, v] = e[i]; EQ(l.is_bridge(u, v), k > c); EQ(l.is_bridge(v, u), k > c); EQ(l.connected_component_num_if_removed(u, v), k); }
    for (int v = 0; v < n; ++v) { int k = ncomp(n, e, -1, v); if (k > c) ar.push_back(v); EQ(l.connected_component_num_if_removed(v), k); EQ(l.is_articulation_point(v), k > c); } EQ(sorted(l.bridge_ids()), br); EQ(sorted(l.articulation_points()), ar); std::vector<int> po; for (int v = 0; v < n; ++v) { po.push_back(l.pre_order(v)); CK(l.low_link(v) <= l.pre_order(v)); } std::sort(po.begin(), po.end()); for (int i = 0; i < n; ++i) EQ(po[i], i); return { br, ar };
}
PBT(low_link, 6000, "a bridge or articulation point together with a cycle", 8, 13) {
    int n = g.size(0, 14); auto e = gen_edges(g, n, g.chance(1, 3)); g.note("n ", n, e); auto l = make<suisen::LowLink>(g, n, e); auto [br, ar] = low_check(n, e, l); for (int v = 0; v < n; ++v) { std::vector<std::pair<int, int>> w; for (int i = 0; i < (int)e.size(); ++i) { if (e[i].first == v) w.emplace_back(e[i].second, i); if (e[i].second == v) w.emplace_back(e[i].first, i); } EQ(sorted(l[v]), sorted(w)); } g.nontrivial(ar.size() && br.size() < e.size());
}
PBT(two_edge_connected_components, 6000, "a bridge together with a cycle", 8, 16) {
    int n = g.size(0, 14); auto e = gen_edges(g, n, g.chance(1, 3)); g.note("n ", n, e); auto l = make<suisen::TwoEdgeConnectedComponents>(g, n, e); auto [br, ar] = low_check(n, e, l); E2 k; for (int i = 0; i < (int)e.size(); ++i) if (!std::binary_search(br.begin(), br.end(), i)) k.push_back(e[i]); std::vector<int> id; int c = ncomp(n, k, -1, -1, &id); EQ(l.component_num(), c); for (int u = 0; u < n; ++u) { CK(0 <= l[u] && l[u] < c); for (int v = 0; v < n; ++v) EQ(l[u] == l[v], id[u] == id[v]); } auto gr = l.groups(); EQ((int)gr.size(), c); for (int i = 0; i < c; ++i) { CK(gr[i].size()); for (int v : gr[i]) EQ(l[v], i); } int tot = 0; for (auto& x : gr) tot += x.size(); EQ(tot, n);
    auto f = l.reduced_forest(); EQ((int)f.size(), c); std::vector<std::vector<std::pair<int, int>>> w(c); for (int i : br) { auto [u, v] = e[i]; w[l[u]].emplace_back(l[v], i); w[l[v]].emplace_back(l[u], i); } for (int i = 0; i < c; ++i) EQ(sorted(f[i]), sorted(w[i])); g.nontrivial(br.size() && br.size() < e.size());
}
PBT(biconnected_components, 6000, "an articulation point and a block with a cycle", 2, 12) {
    int n = g.size(0, 12); auto e = gen_edges(g, n, false); int m = e.size(); g.note("n ", n, e); auto l = make<suisen::BiconnectedComponents>(g, n, e); auto [br, ar] = low_check(n, e, l);
    // two edges are in the same block iff equal or on a common simple cycle: i.e. not separated by any vertex
    std::vector<std::vector<bool>> same(m, std::vector<bool>(m, true)); std::vector<int> base; ncomp(n, e, -1, -1, &base); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (base[e[i].first] != base[e[j].first]) same[i][j] = false;
    for (int v = 0; v < n; ++v) { std::vector<int> id; ncomp(n, e, -1, v, &id); auto side = [&](int i) { return e[i].first == v ? id[e[i].second] : id[e[i].first]; }; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (side(i) != side(j)) same[i][j] = false; }
    std::set<int> ids; for (int i = 0; i < m; ++i) { ids.insert(l[i]); CK(0 <= l[i] && l[i] < l.edge_component_num()); for (int j = 0; j < m; ++j) EQ(l[i] == l[j], (bool)same[i][j]); } EQ((int)ids.size(), l.edge_component_num()); std::vector<int> iso; for (int v = 0; v < n; ++v) { bool has = false; for (auto [a, b] : e) has = has || a == v || b == v; if (!has) iso.push_back(v); } EQ(sorted(l.isolated_vertices()), iso); EQ(l.isolated_vertex_num(), (int)iso.size()); EQ(l.component_num(), l.edge_component_num() + (int)iso.size());
    auto cs = l.components(); EQ((int)cs.size(), l.component_num()); for (int c = 0; c < l.component_num(); ++c) { std::vector<int> es, vs; for (int i = 0; i < m; ++i) if (l[i] == c) es.push_back(i), vs.push_back(e[i].first), vs.push_back(e[i].second); bool is = c >= l.edge_component_num(); EQ(l.is_isolated_component(c), is); EQ(sorted(cs[c].edge_set()), es); EQ(cs[c].edge_num(), (int)es.size()); EQ(cs[c].vertex_num(), (int)cs[c].vertex_set().size()); if (is) { EQ(cs[c].vertex_num(), 1); CK(std::count(iso.begin(), iso.end(), cs[c].vertex_set()[0]) == 1); } else EQ(sorted(cs[c].vertex_set()), uniq(vs)); }
    suisen::BlockCutForest F(l); int A = ar.size(), C = l.component_num(); EQ(F.size(), A + C); std::map<int, int> where; // articulation vertex -> node, recovered through its blocks
    int arts = 0; std::multiset<std::vector<int>> wantart, gotart; for (int v : ar) { std::vector<int> b; for (int c = 0; c < C; ++c) if (std::count(cs[c].vids.begin(), cs[c].vids.end(), v)) b.push_back(c); wantart.insert(b); }
    for (int x = 0; x < F.size(); ++x) { bool a = F.is_articulation_point(x); EQ(F.is_biconnected_component(x), !a); if (a) { ++arts; EQ(F.vertex_num(x), 1); gotart.insert(sorted(F[x])); for (int y : F[x]) CK(F.is_biconnected_component(y)); } else { CK(x < C); EQ(F.is_isolated_vertex(x), x >= l.edge_component_num()); EQ(F.vertex_num(x), cs[x].vertex_num()); int k = 0; for (int v : cs[x].vids) k += std::binary_search(ar.begin(), ar.end(), v); EQ((int)F[x].size(), k); for (int y : F[x]) { CK(F.is_articulation_point(y)); CK(std::count(F[y].begin(), F[y].end(), x) == 1); } } }
    EQ(arts, A); CK(wantart == gotart); for (int v = 0; v < n; ++v) { int c = F.component_id(v); CK(0 <= c && c < C && std::count(cs[c].vids.begin(), cs[c].vids.end(), v)); }
    g.nontrivial(A && br.size() < e.size());
}
PBT(scc_tournament, 4000, "at least two components, one of at least three vertices", 8, 39) {
    int n = g.size(0, 14); auto p = g.perm(n); std::vector<std::vector<bool>> to(n, std::vector<bool>(n)); std::vector<int> in(n); int pr = g.in(0, 4), bl = g.in(1, 7); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { int u = p[j], v = p[i]; if (i / bl == j / bl ? g.coin() : g.chance(pr / 3, 8)) std::swap(u, v); to[u][v] = true; ++in[v]; } auto s = suisen::scc_tournament(in); auto r = to; for (int i = 0; i < n; ++i) r[i][i] = true; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (r[i][k] && r[k][j]) r[i][j] = true;
    std::vector<int> id(n, -1); for (int c = 0; c < (int)s.size(); ++c) { CK(s[c].size()); for (int v : s[c]) { CK(id[v] < 0); id[v] = c; } if (s.size() >= 2 && s[c].size() >= 3) g.nontrivial(); } for (int u = 0; u < n; ++u) { CK(id[u] >= 0); for (int v = 0; v < n; ++v) { EQ(id[u] == id[v], r[u][v] && r[v][u]); if (to[u][v]) CK(id[u] <= id[v]); } }
}
template <class Eu> static void euler(Gen& g, bool dir) {
    int n = g.len(1, 7); E2 e; auto walk = [&](int k) { int u = g.raw(n); for (int i = 0; i < k; ++i) { int v = g.raw(n); if (u == v && g.coin()) v = (u + 1) % n; e.emplace_back(u, v); u = v; } return u; }; int kind = g.raw(4); if (kind == 0) { for (int i = g.len(0, 8); i--;) e.emplace_back(g.raw(n), g.raw(n)); } else { walk(g.len(0, 12)); if (kind >= 2 && e.size()) { int a = e[0].first, b = e.back().second; if (kind == 3) e.emplace_back(b, a); } if (g.chance(1, 4)) { int a = g.raw(n), b = g.raw(n); e.emplace_back(a, b), e.emplace_back(b, a); } } g.shuffle(e); g.note("n ", n, " dir ", dir, e); Eu x(n); for (auto [u, v] : e) x.add_edge(u, v); int m = e.size();
    std::multiset<std::pair<int, int>> pool; for (auto [u, v] : e) pool.insert(dir ? std::pair(u, v) : std::pair(std::min(u, v), std::max(u, v))); auto valid = [&](const std::vector<int>& p) { auto q = pool; EQ((int)p.size(), m + 1); for (int i = 0; i < m; ++i) { auto it = q.find(dir ? std::pair(p[i], p[i + 1]) : std::pair(std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1]))); CKM(it != q.end(), "walk uses an edge that does not exist (often enough)"); q.erase(it); } };
    std::vector<int> d(n); for (auto [u, v] : e) { d[u]++; d[v] += dir ? -1 : 1; } std::vector<int> id; ncomp(n, e, -1, -1, &id); std::set<int> ec; for (auto [u, v] : e) ec.insert(id[u]); bool conn = ec.size() <= 1; int pos = 0, neg = 0, other = 0; for (int v = 0; v < n; ++v) { if (dir) { if (d[v] == 1) ++pos; else if (d[v] == -1) ++neg; else if (d[v]) ++other; } else if (d[v] & 1) ++pos; } bool circ = conn && (dir ? !pos && !neg && !other : !pos), trail2 = conn && (dir ? pos == 1 && neg == 1 && !other : pos == 2);
    for (int q = g.in(1, 4); q--;) { // repeated queries must not disturb one another
        switch (g.raw(4)) { case 0: { auto c = x.eulerian_circuit(); EQ(c.has_value(), circ); if (c) { valid(*c); EQ(c->front(), c->back()); } break; } case 1: { int s = g.raw(n); bool has = m == 0; for (auto [u, v] : e) has = has || u == s || v == s; auto c = x.eulerian_circuit(s); EQ(c.has_value(), circ && has); if (c) { valid(*c); EQ(c->front(), s); EQ(c->back(), s); } break; }
        case 2: { auto c = x.eulerian_trail(); EQ(c.has_value(), circ || trail2); if (c) valid(*c); break; } default: { auto c = x.eulerian_trail(true); EQ(c.has_value(), trail2); if (c) { valid(*c); CK(c->front() != c->back()); } } }
        for (int v = 0; v < n; ++v) { std::vector<int> w; for (auto [a, b] : e) { if (a == v) w.push_back(b); if (!dir && b == v) w.push_back(a); } EQ(sorted(x[v]), sorted(w)); if constexpr (std::is_same_v<Eu, suisen::UndirectedEulerianGraph>) for (int i = 0; i < (int)x[v].size(); ++i) { auto [u, j] = x.rev_edge(v, i); EQ(u, x[v][i]); EQ(x[u][j], v); EQ(x.rev_edge(u, j), (std::pair<int, int>(v, i))); } }
    }
    g.nontrivial(m >= 5 && (circ || trail2));
}
PBT(eulerian_directed, 6000, "at least 5 edges and an Eulerian walk", 8, 15) { euler<suisen::DirectedEulerianGraph>(g, true); }
PBT(eulerian_undirected, 6000, "at least 5 edges and an Eulerian walk", 8, 15) { euler<suisen::UndirectedEulerianGraph>(g, false); }
PBT(bipartite_coloring, 6000, "at least 5 vertices and 5 edges", 8, 12) {
    int n = g.size(0, 14); auto e = gen_edges(g, n, g.chance(1, 6)); if (g.coin()) { std::vector<int> s = g.vec<int>(n, 0, 1); E2 f; for (auto p : e) if (s[p.first] != s[p.second]) f.push_back(p); e = f; } Adj a = adj_of(n, e); int c0 = 0, c1 = 1; if (g.coin()) { c0 = g.edgy(INT_MIN, INT_MAX); c1 = g.edgy(INT_MIN, INT_MAX); if (c0 == c1) c1 = c0 ^ 1; } if (g.chance(1, 6)) c0 = g.in(1, 4), c1 = c0 + 1; g.note("n ", n, e, " colors ", c0, " ", c1);
    auto r = suisen::bipartite_coloring(a, c0, c1); std::vector<int> col(n, -1); bool ok = true; for (int i = 0; i < n; ++i) if (col[i] < 0) { col[i] = 0; std::vector<int> q{ i }; for (size_t k = 0; k < q.size(); ++k) for (int v : a[q[k]]) { if (col[v] < 0) col[v] = !col[q[k]], q.push_back(v); else if (col[v] == col[q[k]]) ok = false; } } EQ(r.has_value(), ok); if (r) { for (int v = 0; v < n; ++v) CK((*r)[v] == c0 || (*r)[v] == c1); for (auto [u, v] : e) CK((*r)[u] != (*r)[v]); } g.nontrivial(n >= 5 && e.size() >= 5);
}
