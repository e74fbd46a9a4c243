#include "common.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/get_path.hpp"
using namespace hv;
struct RT { // rooted forest by brute force
    int n; Adj a; std::vector<int> par, dep, root;
    RT(int n, const Adj& a, const std::vector<int>& roots) : n(n), a(a), par(n, -2), dep(n, 0), root(n, -1) { for (int r : roots) { auto p = parents(a, r); auto d = bfs_dist(a, r); for (int v = 0; v < n; ++v) if (p[v] != -2) par[v] = p[v], dep[v] = d[v], root[v] = r; } }
    int up(int u, int k) const { while (u >= 0 && k--) u = par[u]; return u; }
    bool anc(int u, int v) const { for (; v >= 0; v = par[v]) if (u == v) return true; return false; }
    int lca(int u, int v) const { while (!anc(u, v)) u = par[u]; return u; }
    std::vector<int> path(int u, int v) const { return tree_path(a, u, v); }
    std::vector<int> sub(int u) const { std::vector<int> r; for (int v = 0; v < n; ++v) if (anc(u, v)) r.push_back(v); return r; }
};
PBT(hld, 6000, "tree with at least 5 vertices and a path through two heavy paths", 8, 20) {
    int n = g.size(1, 30); auto es = g.tree(n); if (g.coin()) { std::vector<std::pair<int, int>> f; for (auto e : es) if (!g.chance(1, 5)) f.push_back(e); es = f; } g.note("n ", n, " edges ", es); Adj a = adj_of(n, es);
    bool given = g.coin(); std::vector<int> roots; { std::vector<bool> seen(n); auto ord = given ? g.perm(n) : [&] { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); return p; }(); for (int v : ord) if (!seen[v]) { roots.push_back(v); auto d = bfs_dist(a, v); for (int u = 0; u < n; ++u) if (d[u] >= 0) seen[u] = true; } } g.note("given roots ", given, roots);
    RT t(n, a, roots); Adj b = a; auto h = given ? suisen::HeavyLightDecomposition(b, roots) : suisen::HeavyLightDecomposition(b); EQ(h.size(), n); if (g.chance(1, 8)) { auto h2 = h; h = h2; }
    for (int v = 0; v < n; ++v) EQ(sorted(b[v]), sorted(a[v]));
    EQ(h.get_roots(), sorted(roots)); auto inv = h.inv_ids(); std::vector<bool> used(n);
    for (int v = 0; v < n; ++v) { int x = h.get_visit_time(v); CK(0 <= x && x < n && !used[x]); used[x] = true; EQ(inv[x], v); EQ(h.get_kth_visited(x), v); EQ(h.get_parent(v), t.par[v]); EQ(h.get_depth(v), t.dep[v]); auto s = t.sub(v); EQ(h.get_subtree_size(v), (int)s.size()); EQ(h.get_leave_time(v), x + (int)s.size()); for (int u : s) CK(x <= h.get_visit_time(u) && h.get_visit_time(u) < x + (int)s.size());
        int hd = h.get_head(v); CK(t.anc(hd, v)); EQ(h.get_visit_time(v) - h.get_visit_time(hd), t.dep[v] - t.dep[hd]); if (hd != v) { int mx = 0; for (int u : a[t.par[v]]) if (u != t.par[t.par[v]]) mx = std::max(mx, (int)t.sub(u).size()); EQ((int)s.size(), mx); EQ(h.get_head(t.par[v]), hd); } }
    std::vector<u64> w(n); for (auto& x : w) x = g.raw(1000); // value of vertex; edge value sits on the deeper end
    std::vector<W> at(n); for (int v = 0; v < n; ++v) at[h.get_visit_time(v)] = w_of(w[v]);
    auto q1 = [&](int l, int r) { CK(0 <= l && l <= r && r <= n); W s; for (int i = l; i < r; ++i) s = w_op(s, at[i]); return s; }; auto q2 = [&](int l, int r) { CK(0 <= l && l <= r && r <= n); W s; for (int i = r; i-- > l;) s = w_op(s, at[i]); return s; };
    std::vector<i64> ia(n); for (int v = 0; v < n; ++v) ia[h.get_visit_time(v)] = w[v]; auto qs = [&](int l, int r) { CK(0 <= l && l <= r && r <= n); return std::accumulate(ia.begin() + l, ia.begin() + r, 0LL); };
    for (int q = 20; q--;) {
        int u = g.raw(n), v = g.raw(n), k = g.in(-1, n + 1); bool e = g.coin(); g.note("u ", u, " v ", v, " k ", k, " e ", e); EQ(h.la(u, k), (k < 0 ? -1 : t.up(u, k))); if (k > t.dep[u]) EQ(h.la(u, k, -7), -7);
        EQ(h.get_point<i64>(u, [&](int i) { return ia[i]; }), (i64)w[u]); { int c = -1; h.update_point(u, [&](int i) { c = i; }); EQ(c, h.get_visit_time(u)); }
        { i64 s = 0; for (int x : t.sub(u)) if (!(e && x == u)) s += w[x]; EQ(h.fold_subtree<i64>(u, qs, e), s); std::vector<int> c(n); h.update_subtree(u, [&](int l, int r) { for (int i = l; i < r; ++i) ++c[i]; }, e); for (int x = 0; x < n; ++x) EQ(c[h.get_visit_time(x)], int(t.anc(u, x) && !(e && x == u))); }
        if (t.root[u] != t.root[v]) continue;
        int c = t.lca(u, v); EQ(h.lca(u, v), c); auto p = t.path(u, v); EQ(h.dist(u, v), (int)p.size() - 1); EQ(h.jump(u, v, k, -5), (k >= 0 && k < (int)p.size() ? p[k] : -5)); if (n >= 5 && h.get_head(u) != h.get_head(v)) g.nontrivial();
        W s; i64 ss = 0; std::vector<int> cnt(n), got(n); for (int x : p) if (!(e && x == c)) s = w_op(s, w_of(w[x])), ss += w[x], cnt[x]++;
        EQ(h.fold_path_noncommutative(u, v, W{}, w_op, q1, q2, e), s); EQ(h.fold_path(u, v, (i64)0, add_ll, qs, e), ss); h.update_path(u, v, [&](int l, int r) { CK(0 <= l && l <= r && r <= n); for (int i = l; i < r; ++i) ++got[inv[i]]; }, e); EQ(got, cnt);
    }
}
PBT(lca_family, 6000, "tree with at least 4 vertices and a non-zero root", 8, 14) {
    int n = g.size(1, 40); auto es = g.tree(n); int r = g.raw(n); g.note("n ", n, " root ", r, " edges ", es); Adj a = adj_of(n, es); RT t(n, a, { r }); g.nontrivial(n >= 4 && r); if (g.chance(1, 4)) r = 0, t = RT(n, a, { 0 });
    suisen::LowestCommonAncestor L = suisen::LowestCommonAncestor(a, r); suisen::LevelAncestor V(a, r); suisen::EulerTour E(a, r); std::vector<std::vector<std::pair<int, char>>> ea(n); for (int v = 0; v < n; ++v) for (int u : a[v]) ea[v].emplace_back(u, 'x'); suisen::EulerTour E2(ea, [](const auto& e) { return e.first; }, r);
    std::vector<bool> used(n);
    for (int v = 0; v < n; ++v) { EQ(V.get_depth(v), t.dep[v]); EQ(E.depth(v), t.dep[v]); EQ(E.parent(v), t.par[v]); EQ(E2.parent(v), t.par[v]); int x = V.get_visit_time(v); CK(0 <= x && x < n && !used[x]); used[x] = true; EQ(V.get_kth_visited(x), v); EQ(V.get_visit_time_inv(x), v); CK(E.visit_time(v) < E.leave_time(v)); if (t.par[v] >= 0) { int p = t.par[v]; CK(V.get_visit_time(p) < x); CK(E.visit_time(p) < E.visit_time(v) && E.leave_time(v) < E.leave_time(p)); }
        EQ((E.leave_time(v) - E.visit_time(v) + 1) / 2, (int)t.sub(v).size()); }
    std::vector<int> tm; for (int v = 0; v < n; ++v) tm.push_back(E.visit_time(v)), tm.push_back(E.leave_time(v)); EQ((int)uniq(tm).size(), 2 * n);
    for (int q = 30; q--;) { int u = g.raw(n), v = g.raw(n), k = g.in(-1, n); int c = t.lca(u, v), d = t.dep[u] + t.dep[v] - 2 * t.dep[c]; g.note("u ", u, " v ", v, " k ", k); EQ(L.lca(u, v), c); EQ(L(u, v), c); EQ(L.dist(u, v), d); EQ(E.lca(u, v), c); EQ(E2.lca(u, v), c); EQ(E.dist(u, v), d); int w = k < 0 ? -1 : t.up(u, k); EQ(V.query(u, k), w); EQ(V(u, k), w); EQ(suisen::get_tree_path(a, u, v), t.path(u, v)); }
}
PBT(auxiliary_tree, 6000, "at least two marked vertices and an added branching vertex", 8, 20) {
    int n = g.size(1, 25); auto es = g.tree(n); Adj a = adj_of(n, es); int r = g.raw(n); RT t(n, a, { r }); Adj b = a; suisen::HeavyLightDecomposition h(b, std::vector<int>{ r }); suisen::AuxiliaryTree A(h); g.note("n ", n, " root ", r, " edges ", es);
    for (int q = g.in(1, 5); q--;) {
        auto p = g.perm(n); std::vector<int> vs(p.begin(), p.begin() + (g.chance(1, 10) ? 0 : g.in(std::min(n, 1), n) / (g.coin() ? 1 : 3))); g.note("build ", vs); A.build(vs);
        std::set<int> S(vs.begin(), vs.end()); for (int u : vs) for (int v : vs) S.insert(t.lca(u, v)); if (S.size() > vs.size()) g.nontrivial();
        std::vector<std::set<int>> want(n); for (int v : S) { int x = t.par[v]; while (x >= 0 && !S.count(x)) x = t.par[x]; if (x >= 0) want[v].insert(x), want[x].insert(v); }
        for (int v = 0; v < n; ++v) { auto o = A[v]; EQ(sorted(o), (std::vector<int>(want[v].begin(), want[v].end()))); }
    }
    EQ(A.get_hld().size(), n);
}
PBT(find_centroids, 6000, "two centroids or at least 6 vertices", 8, 125) {
    int n = g.size(1, 40); Adj a = adj_of(n, g.tree(n)); auto c = suisen::find_centroids(a); std::vector<int> want; for (int v = 0; v < n; ++v) { RT t(n, a, { v }); bool ok = true; for (int u : a[v]) ok = ok && 2 * (int)t.sub(u).size() <= n; if (ok) want.push_back(v); } EQ(sorted(c), want); g.nontrivial(want.size() == 2 || n >= 6);
}
