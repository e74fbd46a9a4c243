#include "large.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
using namespace hv;
PBT(rerooting_large, 3, "every case: more than 2^16 vertices") { // sum and maximum of distances from every vertex
    int n = big_n(g, 110000), shape = g.raw(8); Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, g.chance(3, 4)); g.note("n ", n, " shape ", shape); BigTree t(n, es, 0); std::vector<i64> ew = b.vec<i64>(n - 1, 1, 1000000); std::vector<std::vector<std::pair<int, i64>>> adj(n);
    struct D { i64 c, s, m; bool operator==(const D& o) const { return c == o.c && s == o.s && m == o.m; } }; auto op = [](D x, D y) { return D{ x.c + y.c, x.s + y.s, std::max(x.m, y.m) }; }; auto e = [] { return D{ 0, 0, 0 }; }; auto sub = [](D x, i64 w) { return D{ x.c + 1, x.s + (x.c + 1) * w, x.m + w }; }; auto root = [](D x) { return x; };
    suisen::RerootingEdgeWeighted<i64> R(n); for (int i = 0; i < n - 1; ++i) { auto [u, v] = es[i]; R.add_edge(u, v, ew[i]); adj[u].push_back({ v, ew[i] }); adj[v].push_back({ u, ew[i] }); } auto r = R.run_dp(op, e, sub, root); EQ((int)r.size(), n);
    auto bfs = [&](int s) { std::vector<i64> d(n, -1); std::vector<int> q{ s }; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (auto [v, w] : adj[q[i]]) if (d[v] < 0) d[v] = d[q[i]] + w, q.push_back(v); return d; };
    for (int k = 0; k < 6; ++k) { int s = b.raw(n); auto d = bfs(s); EQ(r[s].c, (i64)n - 1); EQ(r[s].s, std::accumulate(d.begin(), d.end(), i64(0))); }
    auto d0 = bfs(0); int p = std::max_element(d0.begin(), d0.end()) - d0.begin(); auto dp = bfs(p); int q = std::max_element(dp.begin(), dp.end()) - dp.begin(); auto dq = bfs(q); for (int v = 0; v < n; ++v) EQ(r[v].m, std::max(dp[v], dq[v]));
    suisen::RerootingInvertibleEdgeWeighted<i64> I(n); for (int i = 0; i < n - 1; ++i) I.add_edge(es[i].first, es[i].second, ew[i]); using S = std::pair<i64, i64>; auto ri = I.run_dp([](S x, S y) { return S(x.first + y.first, x.second + y.second); }, [] { return S(0, 0); }, [](S x) { return S(-x.first, -x.second); }, [](S x, i64 w) { return S(x.first + 1, x.second + (x.first + 1) * w); }, [](S x) { return x; }); for (int v = 0; v < n; ++v) { EQ(ri[v].first, r[v].c); EQ(ri[v].second, r[v].s); }
}
static std::vector<Z> VW;
struct PD { A f; }; static PD p_vertex(int v) { return { A{ Z(1), VW[v] } }; } static Z p_add(PD& p, int, int) { return Z(5) * a_app(p.f, 0) + Z(2); } static Z t_merge(Z& x, Z& y) { return x + y; } static PD p_root(Z& s, int v) { return { A{ Z(1), s + VW[v] } }; } static PD p_merge(PD& hi, PD& lo) { return { a_comp(hi.f, a_comp(A{ Z(5), Z(2) }, lo.f)) }; }
PBT(static_top_tree_large, 3, "every case: more than 2^16 vertices, updates at random and extreme vertices") { // value(v) = w(v) + sum over children of (5 value + 2): linear in every w
    int n = big_n(g), shape = g.raw(8), root; Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, g.chance(3, 4)); root = b.raw(n); g.note("n ", n, " shape ", shape, " root ", root); BigTree t(n, es, root); VW.resize(n); for (auto& x : VW) x = (i64)b.raw(P); suisen::static_toptree T(t.a, root); for (int v = 0; v < n; ++v) { EQ(T.parent(v), t.par[v]); EQ(T.subtree_size(v), t.sz[v]); }
    std::vector<Z> pw(n, 1); for (int i = 1; i < n; ++i) pw[i] = pw[i - 1] * Z(5); Z cur = 0; for (int v = 0; v < n; ++v) cur += pw[t.dep[v]] * VW[v] + (v == root ? Z(0) : Z(2) * pw[t.dep[v] - 1]);
    auto dp = T.tree_dp<Z, PD, p_vertex, p_add, t_merge, p_root, p_merge>(); EQ(a_app(dp().f, 0), cur);
    int deep = t.ord.back(); for (int q = 0; q < 20000; ++q) { int v = b.raw(6) == 0 ? (b.coin() ? root : deep) : int(b.raw(n)); Z x = (i64)b.raw(P); cur += (x - VW[v]) * pw[t.dep[v]]; VW[v] = x; EQ(a_app(dp.update(v).f, 0), cur); }
}
template <class H, bool ANYDEG> static void iso(Gen& g) {
    int n = big_n(g, 100000), shape = g.raw(8); Bulk b(g); g.nontrivial(); auto es = b.tree(n, shape, true); auto p = b.perm(n); std::vector<std::pair<int, int>> fs; for (auto [u, v] : es) fs.push_back({ p[u], p[v] }); b.shuffle(fs); g.note("n ", n, " shape ", shape); BigTree s(n, es, 0), t(n, fs, p[0]); suisen::RootedTreeClassifier<H> C;
    auto x = C.classify_subtrees(s.a, 0), y = C.classify_subtrees(t.a, p[0]); for (int v = 0; v < n; ++v) EQ(x[v], y[p[v]]); std::map<std::pair<int, std::vector<int>>, int> id; std::map<int, int> size; for (int v = 0; v < n; ++v) { std::vector<int> c; for (int u : s.a[v]) if (u != s.par[v]) c.push_back(x[u]); std::sort(c.begin(), c.end()); EQ(id.try_emplace({ 0, c }, x[v]).first->second, x[v]); EQ(size.try_emplace(x[v], s.sz[v]).first->second, s.sz[v]); } std::set<int> d(x.begin(), x.end()); EQ(d.size(), id.size());
    size_t md = 0; for (auto& l : s.a) md = std::max(md, l.size()); if (!ANYDEG && md > 400) return; // the naive handler is quadratic in the degree
    auto rx = C.classify_rerooting(s.a), ry = C.classify_rerooting(t.a); for (int v = 0; v < n; ++v) EQ(rx[v], ry[p[v]]); EQ(rx[0], x[0]);
    auto o = C.is_isomorphic(s.a, t.a); CK(o.has_value()); EQ(rx[o->first], ry[o->second]);
    // move one leaf: sorted distance profile from both ends decides nothing cheap, so compare only when the degree sequence changes
    int l = n - 1; for (; s.a[l].size() != 1 || s.par[l] < 0; --l); int q = s.par[l], w = b.raw(n); while (w == l || w == q) w = b.raw(n); auto deg = [&](const BigTree& z) { std::vector<int> r; for (auto& e : z.a) r.push_back(e.size()); std::sort(r.begin(), r.end()); return r; }; std::vector<std::pair<int, int>> hs; for (auto [u, v] : es) if (u != l && v != l) hs.push_back({ u, v }); hs.push_back({ l, w }); BigTree z(n, hs, 0); if (deg(z) != deg(s)) CK(!C.is_isomorphic(s.a, z.a).has_value());
}
PBT(tree_isomorphism_naive_large, 2, "every case: more than 2^15 vertices") { iso<suisen::IDHandlerNaive, false>(g); }
PBT(tree_isomorphism_zobrist_large, 2, "every case: more than 2^15 vertices") { iso<suisen::IDHandlerZobrist<2>, true>(g); }
