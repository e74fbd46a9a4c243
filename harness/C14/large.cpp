#include "large.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/centroid_decomposition.hpp"
using namespace hv;
PBT(hld_large, 4, "every case: more than 2^16 vertices") {
    int n = big_n(g), shape = g.raw(8); Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, g.chance(3, 4)); int root = g.chance(1, 4) ? 0 : int(b.raw(n)); g.note("n ", n, " shape ", shape, " root ", root); BigTree t(n, es, root); Adj adj = t.a; suisen::HeavyLightDecomposition h(adj, std::vector<int>{ root });
    std::vector<i64> w = b.vec<i64>(n, -1000000000, 1000000000), pre(n + 1), rp(n, 0), sub = w; for (int v : t.ord) rp[v] = w[v] + (t.par[v] < 0 ? 0 : rp[t.par[v]]); for (int i = n; i-- > 1;) sub[t.par[t.ord[i]]] += sub[t.ord[i]]; std::vector<bool> used(n);
    for (int v = 0; v < n; ++v) { int x = h.get_visit_time(v); CK(0 <= x && x < n && !used[x]); used[x] = true; EQ(h.get_parent(v), t.par[v]); EQ(h.get_depth(v), t.dep[v]); EQ(h.get_subtree_size(v), t.sz[v]); EQ(h.get_leave_time(v), x + t.sz[v]); EQ(h.get_kth_visited(x), v); pre[x + 1] = w[v]; if (t.par[v] >= 0) CK(h.get_visit_time(t.par[v]) < x && x < h.get_leave_time(t.par[v])); }
    for (int i = 0; i < n; ++i) pre[i + 1] += pre[i]; auto qs = [&](int l, int r) { CK(0 <= l && l <= r && r <= n); return pre[r] - pre[l]; };
    for (int q = 0; q < 30000; ++q) { int x = b.raw(n), y = b.raw(n), c = t.lca(x, y); EQ(h.lca(x, y), c); EQ(h.dist(x, y), t.dist(x, y)); int k = b.in(-1, t.dep[x] + 1); EQ(h.la(x, k), t.la(x, k)); int j = b.in(-1, t.dist(x, y) + 1); EQ(h.jump(x, y, j, -1), t.at(x, y, j)); bool e = b.coin(); EQ(h.fold_path(x, y, (i64)0, add_ll, qs, e), rp[x] + rp[y] - 2 * rp[c] + (e ? 0 : w[c])); EQ(h.fold_subtree<i64>(x, qs, e), sub[x] - (e ? w[x] : 0)); }
    for (int q = 0; q < 10; ++q) { int x = b.raw(n), y = b.raw(n); W s; for (int v : t.path(x, y)) s = w_op(s, w_of(w[v])); auto inv = h.inv_ids(); auto q1 = [&](int l, int r) { W s; for (int i = l; i < r; ++i) s = w_op(s, w_of(w[inv[i]])); return s; }; auto q2 = [&](int l, int r) { W s; for (int i = r; i-- > l;) s = w_op(s, w_of(w[inv[i]])); return s; }; EQ(h.fold_path_noncommutative(x, y, W{}, w_op, q1, q2, false), s); }
    suisen::AuxiliaryTree A(h); for (int q = 0; q < 20; ++q) { int k = b.coin() ? b.in(1, 60) : b.in(1, 3000); std::vector<int> vs; std::set<int> S; while ((int)S.size() < k) S.insert(b.raw(n)); vs.assign(S.begin(), S.end()); b.shuffle(vs); A.build(vs);
        // expected: close the set under lca of neighbours in visiting order
        std::vector<int> o = vs; auto cmp = [&](int x, int y) { return h.get_visit_time(x) < h.get_visit_time(y); }; std::sort(o.begin(), o.end(), cmp); for (int i = 0; i + 1 < k; ++i) o.push_back(t.lca(o[i], o[i + 1])); std::sort(o.begin(), o.end(), cmp); o.erase(std::unique(o.begin(), o.end()), o.end()); std::map<int, std::vector<int>> want; std::vector<int> st; for (int v : o) { want[v]; while (st.size() && t.lca(st.back(), v) != st.back()) st.pop_back(); if (st.size()) want[v].push_back(st.back()), want[st.back()].push_back(v); st.push_back(v); }
        for (auto& [v, l] : want) { auto z = A[v]; EQ(sorted(z), sorted(l)); } for (int i = 0; i < 200; ++i) { int v = b.raw(n); if (!want.count(v)) CK(A[v].empty()); } }
}
PBT(lca_family_large, 4, "every case: more than 2^16 vertices") {
    int n = big_n(g), shape = g.raw(8); Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, g.chance(3, 4)); int root = g.chance(1, 4) ? 0 : int(b.raw(n)); g.note("n ", n, " shape ", shape, " root ", root); BigTree t(n, es, root); suisen::LowestCommonAncestor L(t.a, root); suisen::LevelAncestor V(t.a, root); suisen::EulerTour E(t.a, root);
    for (int v = 0; v < n; ++v) { EQ(V.get_depth(v), t.dep[v]); EQ(E.depth(v), t.dep[v]); EQ(E.parent(v), t.par[v]); EQ((E.leave_time(v) - E.visit_time(v) + 1) / 2, t.sz[v]); if (t.par[v] >= 0) { int p = t.par[v]; CK(E.visit_time(p) < E.visit_time(v) && E.leave_time(v) < E.leave_time(p)); } }
    for (int q = 0; q < 50000; ++q) { int u = b.raw(n), v = b.raw(n), c = t.lca(u, v), d = t.dist(u, v); EQ(L.lca(u, v), c); EQ(L.dist(u, v), d); EQ(E.lca(u, v), c); EQ(E.dist(u, v), d); int k = b.in(-1, t.dep[u] + 1); EQ(V.query(u, k), t.la(u, k)); }
    for (int q = 0; q < 3; ++q) { int u = b.raw(n), v = b.raw(n); CK(suisen::get_tree_path(t.a, u, v) == t.path(u, v)); }
    std::vector<int> want; for (int v = 0; v < n; ++v) { bool ok = 2 * (n - t.sz[v]) <= n; for (int c : t.a[v]) if (c != t.par[v] && 2 * t.sz[c] > n) ok = false; if (ok) want.push_back(v); } EQ(sorted(suisen::find_centroids(t.a)), want);
}
PBT(centroid_decomposition_large, 3, "every case: tens of thousands of vertices") {
    int n = big_n(g, 100000), shape = g.raw(8); Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, g.chance(3, 4)); g.note("n ", n, " shape ", shape); BigTree t(n, es, 0); suisen::CentroidDecompositionUnweighted c(suisen::UnweightedGraph::create_undirected_graph(n, es));
    std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int x, int y) { return c.dct_depth(x) > c.dct_depth(y); }); EQ(c.dct_parent(o.back()), -1); std::vector<int> sz(n, 1);
    for (int v : o) { int p = c.dct_parent(v); EQ(c.dct_size(v), sz[v]); if (p < 0) { EQ(v, o.back()); EQ(sz[v], n); EQ(c.dct_depth(v), 0); } else { EQ(c.dct_depth(v), c.dct_depth(p) + 1); sz[p] += sz[v]; } }
    for (int v = 0; v < n; ++v) { int p = c.dct_parent(v); if (p >= 0) CK(2 * sz[v] <= sz[p]); for (int u : t.a[v]) { int x = c.dct_depth(u) > c.dct_depth(v) ? u : v, y = x == u ? v : u; CK(c.dct_depth(u) != c.dct_depth(v)); while (x != y && x >= 0) x = c.dct_parent(x); EQ(x, y); } }
    i64 tot = 0, len = 0; for (int v = 0; v < n; ++v) { if (sz[v] < 1000 && b.raw(50)) continue; auto x = c.collect(v); EQ((int)x[0].size(), sz[v]); size_t parts = 0; for (size_t i = 1; i < x.size(); ++i) parts += x[i].size(); EQ((int)parts, sz[v] - 1); for (size_t i = 0; i < std::min<size_t>(x[0].size(), 50); ++i) { auto [u, d] = x[0][b.raw(x[0].size())]; EQ(d, t.dist(u, v)); } ++tot; len += sz[v]; } CK(tot >= 1);
}
