#include "large.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>;
// iterative depth-first reference: bridges, articulation points, block of each edge
struct Ref { std::vector<int> ord, low, block, comp; std::vector<bool> br, ar; int comps = 0, blocks = 0;
    Ref(int n, const E2& e) : ord(n, -1), low(n), block(e.size(), -1), comp(n, -1), br(e.size()), ar(n) { std::vector<std::vector<std::pair<int, int>>> a(n); for (size_t i = 0; i < e.size(); ++i) { auto [u, v] = e[i]; if (u == v) continue; a[u].emplace_back(v, i), a[v].emplace_back(u, i); } int t = 0; std::vector<int> es; struct Fr { int v, pe; size_t i; }; 
        for (int r = 0; r < n; ++r) if (ord[r] < 0) { int ch = 0; std::vector<Fr> st{ { r, -1, 0 } }; ord[r] = low[r] = t++; comp[r] = comps; while (st.size()) { auto& f = st.back(); if (f.i < a[f.v].size()) { auto [w, id] = a[f.v][f.i++]; if (id == f.pe) continue; if (ord[w] < 0) { es.push_back(id); ord[w] = low[w] = t++; comp[w] = comps; if (f.v == r) ++ch; st.push_back({ w, id, 0 }); } else { if (ord[w] < ord[f.v]) es.push_back(id); low[f.v] = std::min(low[f.v], ord[w]); } } else { int w = f.v, id = f.pe; st.pop_back(); if (st.empty()) break; int v = st.back().v; low[v] = std::min(low[v], low[w]); if (low[w] > ord[v]) br[id] = true; if (low[w] >= ord[v]) { if (v != r) ar[v] = true; while (true) { int x = es.back(); es.pop_back(); block[x] = blocks; if (x == id) break; } ++blocks; } } } if (ch > 1) ar[r] = true; ++comps; } } };
// cactus-like chains, long cycles, trees with few extra edges, random graphs
static E2 make(Bulk& b, int n, int kind) { E2 e; switch (kind) { case 0: for (int i = 1; i < n; ++i) e.emplace_back(i - 1, i); for (int i = 0; i + 8 < n; i += 4 + b.raw(20)) e.emplace_back(i, i + 2 + b.raw(6)); break; case 1: for (int i = 0; i < n; ++i) e.emplace_back(i, (i + 1) % n); break; case 2: e = b.tree(n, b.raw(8), true); for (int i = 0; i < n / 10; ++i) e.emplace_back(b.raw(n), b.raw(n)); break; case 3: for (int i = 1; i < n; ++i) e.emplace_back(0, i); for (int i = 1; i + 1 < n; i += 3) e.emplace_back(i, i + 1); break; default: for (int i = 0; i < n; ++i) { int u = b.raw(n), v = b.raw(n); e.emplace_back(u, v); if (b.raw(50) == 0) e.emplace_back(v, u); } } E2 f; for (auto x : e) if (x.first != x.second) f.push_back(x); auto p = b.perm(n); for (auto& [u, v] : f) u = p[u], v = p[v]; b.shuffle(f); return f; }
PBT(low_link_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 120000), kind = g.raw(5); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); auto e = make(b, n, kind); int m = e.size(); Ref r(n, e); suisen::TwoEdgeConnectedComponents l(n, e); EQ(l.connected_component_num(), r.comps); std::vector<int> wb, wa; for (int i = 0; i < m; ++i) if (r.br[i]) wb.push_back(i); for (int v = 0; v < n; ++v) if (r.ar[v]) wa.push_back(v); CK(sorted(l.bridge_ids()) == wb); CK(sorted(l.articulation_points()) == wa);
    std::vector<int> id(n); std::iota(id.begin(), id.end(), 0); auto f = [&](int x) { while (id[x] != x) x = id[x] = id[id[x]]; return x; }; int c = n; for (int i = 0; i < m; ++i) { auto [u, v] = e[i]; EQ(l.is_bridge(u, v), (bool)r.br[i]); if (!r.br[i]) { u = f(u), v = f(v); if (u != v) id[u] = v, --c; } } EQ(l.component_num(), c); std::vector<int> nm(n, -1), bk(c, -1); for (int v = 0; v < n; ++v) { int x = f(v), y = l[v]; CK(0 <= y && y < c); if (nm[x] < 0) { CK(bk[y] < 0); nm[x] = y, bk[y] = x; } EQ(nm[x], y); } auto fo = l.reduced_forest(); size_t tot = 0; for (auto& x : fo) tot += x.size(); EQ(tot, 2 * wb.size());
}
PBT(biconnected_large, 4, "every case: more than 2^15 vertices") {
    int n = big_n(g, 100000), kind = g.raw(5); Bulk b(g); g.nontrivial(); g.note("n ", n, " kind ", kind); auto e = make(b, n, kind); int m = e.size(); Ref r(n, e); suisen::BiconnectedComponents l(n, e); EQ(l.edge_component_num(), r.blocks); std::vector<int> nm(r.blocks, -1), bk(r.blocks, -1); for (int i = 0; i < m; ++i) { int x = r.block[i], y = l[i]; CK(0 <= y && y < r.blocks); if (nm[x] < 0) { CK(bk[y] < 0); nm[x] = y, bk[y] = x; } EQ(nm[x], y); }
    std::vector<std::vector<int>> vs(r.blocks); for (int i = 0; i < m; ++i) vs[l[i]].push_back(e[i].first), vs[l[i]].push_back(e[i].second); std::vector<int> cnt(n); auto cs = l.components(); for (int c = 0; c < r.blocks; ++c) { auto w = uniq(vs[c]); CK(sorted(cs[c].vertex_set()) == w); for (int v : w) ++cnt[v]; } int iso = 0; for (int v = 0; v < n; ++v) { EQ(cnt[v] >= 2, (bool)r.ar[v]); iso += !cnt[v]; } EQ(l.isolated_vertex_num(), iso); EQ(l.component_num(), r.blocks + iso);
    int A = std::count(r.ar.begin(), r.ar.end(), true); suisen::BlockCutForest F(l); EQ(F.size(), A + l.component_num()); size_t deg = 0, want = 0; for (int v = 0; v < n; ++v) if (r.ar[v]) want += cnt[v]; for (int x = 0; x < F.size(); ++x) deg += F[x].size(); EQ(deg, 2 * want);
}
PBT(scc_tournament_large, 3, "every case: more than 2^15 vertices") { // blocks of sizes 1 or 2k+1, every block a rotational tournament
    int n = big_n(g); Bulk b(g); g.nontrivial(); std::vector<int> in, blk; int pre = 0, k = 0; while (pre < n) { int s = b.raw(3) ? 1 : 2 * int(1 + b.raw(b.coin() ? 3 : 3000)) + 1; s = std::min(s, n - pre); if (s % 2 == 0) --s; for (int i = 0; i < s; ++i) in.push_back(pre + s / 2), blk.push_back(k); pre += s; ++k; } auto p = b.perm(n); std::vector<int> a(n), w(n); for (int i = 0; i < n; ++i) a[p[i]] = in[i], w[p[i]] = blk[i]; auto s = suisen::scc_tournament(a); EQ((int)s.size(), k); size_t t = 0; for (int c = 0; c < k; ++c) for (int v : s[c]) EQ(w[v], c), ++t; EQ((int)t, n);
}
template <class Eu> static void euler(Gen& g, bool dir) {
    int n = g.pick(std::vector<int>{ 3, 300, 50000 }), m = big_n(g, 150000), kind = g.raw(3); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m, " kind ", kind); E2 e; std::vector<int> wk{ 0 }; for (int i = 0; i < m; ++i) { int u = wk.back(), v = kind == 0 ? int(b.raw(n)) : kind == 1 ? (u + 1) % n : (b.raw(5) ? (u + 1) % n : u); wk.push_back(v); e.emplace_back(u, v); } bool closed = g.coin(); if (closed && wk.back() != 0) e.emplace_back(wk.back(), 0), wk.push_back(0); if (!closed && wk.back() == 0) e.emplace_back(0, 1), wk.push_back(1); m = e.size(); b.shuffle(e); Eu x(n); for (auto [u, v] : e) x.add_edge(u, v);
    auto key = [&](int u, int v) { return dir || u <= v ? std::pair(u, v) : std::pair(v, u); }; E2 pool; for (auto [u, v] : e) pool.push_back(key(u, v)); std::sort(pool.begin(), pool.end()); auto valid = [&](const std::vector<int>& p) { EQ((int)p.size(), m + 1); E2 q; for (int i = 0; i < m; ++i) q.push_back(key(p[i], p[i + 1])); std::sort(q.begin(), q.end()); CKM(q == pool, "the walk does not use every edge exactly once"); };
    auto c = x.eulerian_circuit(); EQ(c.has_value(), closed); if (c) valid(*c), EQ(c->front(), c->back()); auto t = x.eulerian_trail(); CK(t.has_value()); valid(*t);
}
PBT(eulerian_directed_large, 3, "every case: more than 2^16 edges") { euler<suisen::DirectedEulerianGraph>(g, true); }
PBT(eulerian_undirected_large, 3, "every case: more than 2^16 edges") { euler<suisen::UndirectedEulerianGraph>(g, false); }
PBT(bipartite_coloring_large, 3, "every case: more than 2^16 vertices") {
    int n = big_n(g), kind = g.raw(3); Bulk b(g); g.nontrivial(); auto p = b.perm(n); E2 e; if (kind == 0) for (int i = 1; i < n; ++i) e.emplace_back(p[i - 1], p[i]); else if (kind == 1) for (int i = 0; i < n; ++i) { int u = b.raw(n), v = b.raw(n); if ((u ^ v) & 1) e.emplace_back(p[u], p[v]); } else e = b.tree(n, 6); b.shuffle(e); auto r = suisen::bipartite_coloring(adj_of(n, e), 0, 1); CK(r.has_value()); for (auto [u, v] : e) CK((*r)[u] != (*r)[v]); if (kind != 1) { int odd = n - (n % 2 == 0); E2 c; for (int i = 0; i < odd; ++i) c.emplace_back(p[i], p[(i + 1) % odd]); CK(!suisen::bipartite_coloring(adj_of(n, c), 0, 1).has_value()); }
}
