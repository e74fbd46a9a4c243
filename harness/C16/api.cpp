#include "common.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
using namespace hv;
PBT(csr_static_builder, 4000, "a vertex of degree at least two", 8, 12) {
    int n = g.size(1, 12); std::vector<std::pair<int, int>> e; for (int m = g.size(0, 25); m--;) { int u = g.raw(n), v = g.raw(n); e.emplace_back(u, v); }
    bool dir = g.coin(); auto G = dir ? suisen::DirectedGraphBuilder<>::build(n, e) : suisen::UndirectedGraphBuilder<>::build(n, e); EQ(G.size(), n);
    std::vector<std::vector<int>> w(n); for (auto [u, v] : e) { w[u].push_back(v); if (!dir) w[v].push_back(u); }
    for (int u = 0; u < n; ++u) { auto L = G[u]; const auto CL = G[u]; EQ(L.size(), (int)w[u].size()); if (w[u].empty()) continue; if (w[u].size() > 1) g.nontrivial(); std::vector<int> a(L.data(), L.data() + L.size()), b(CL.data(), CL.data() + CL.size()), c(L.begin(), L.end()); CK(a == c && b == c); EQ(sorted(c), sorted(w[u])); EQ((int)L.front(), c.front()); EQ((int)CL.front(), c.front()); EQ((int)CL.back(), c.back()); }
    for (int u = 0; u < n; ++u) if (w[u].size()) { auto L = G[u]; L.front() = n + 5; EQ((int)G[u][0], n + 5); int* d = L.data(); d[L.size() - 1] = n + 7; EQ((int)G[u].back(), n + 7); }
}
static i64 o_addm(i64 a, i64 b) { return (a + b) % 1000003; }
static i64 o_add(i64 a, i64 b) { return a + b; } static i64 o_z() { return 0; }
PBT(functional_graph_conversions, 4000, "the walk leaves its start", 8, 12) {
    int n = g.size(1, 12); std::vector<int> nx(n); for (auto& x : nx) x = g.raw(n); const suisen::FunctionalGraph f(nx); for (int i = 0; i < n; ++i) EQ(f[i], nx[i]); auto d = f.doubling(100); auto w = g.vec<i64>(n, 0, 5); auto ds = f.doubling<i64, o_add, o_z>(100, w); int u = g.raw(n), lim = g.raw(n); i64 ls = g.in(0, 60);
    { std::vector<char> ok(n); int v = u; int t = g.in(0, 30); for (int i = 0; i <= t; ++i) ok[v] = 1, v = nx[v]; } int T = g.in(0, 100); int v = u; i64 s = 0; for (int i = 0; i < T; ++i) s += w[v], v = nx[v]; EQ(d.query(u, T), v); std::pair<int, i64> r = ds.query(u, T); EQ(r.first, v); EQ(r.second, s);
    v = u; s = 0; i64 k = 0; while (k < 127 && s + w[v] <= ls) s += w[v], v = nx[v], ++k; std::tuple<int, i64, long long> b = ds.max_step(u, [&](i64 x) { return x <= ls; }); EQ(std::get<2>(b), (long long)k); EQ(std::get<0>(b), v); EQ(std::get<1>(b), s); g.nontrivial(k > 0 && k < 127);
    if (u == lim) return; auto x = d.step_until(u, [&](int z) { return z == lim; }); (void)x;
}
PBT(functional_graph_huge_steps, 3000, "more than 2^31 steps on a cycle longer than one", 8, 12) {
    int n = g.size(1, 12); std::vector<int> nx(n); for (auto& x : nx) x = g.raw(n); suisen::FunctionalGraph f(nx); i64 mx = g.coin() ? (i64)(g.u64any() >> g.in(1, 40)) : (i64)((1ull << g.in(1, 63)) - g.in(0, 2)); if (mx < 1) mx = 1;
    auto w = g.vec<i64>(n, 0, 5); auto d = f.doubling(mx); auto ds = f.doubling<i64, o_addm, o_z>(mx, w); std::vector<W> ww(n); for (auto& x : ww) x = w_of(g.raw(50)); auto dw = f.doubling<W, w_op, w_e>(mx, ww); auto wpow = [](W b, i64 e) { W r; for (; e; e >>= 1, b = w_op(b, b)) if (e & 1) r = w_op(r, b); return r; };
    for (int q = 0; q < 4; ++q) {
        i64 T = q == 0 ? mx : g.coin() ? g.range(0, mx) : mx - g.range(0, std::min<i64>(mx, 5)); int u = g.raw(n);
        // walk with cycle detection
        std::vector<i64> at(n, -1); std::vector<i64> pre; std::vector<int> path; int v = u; i64 s = 0; while (at[v] < 0) at[v] = path.size(), path.push_back(v), pre.push_back(s), s += w[v], v = nx[v]; i64 L = (i64)path.size() - at[v], h = at[v], cs = s - pre[h]; int want; i64 ws;
        if (T < (i64)path.size()) want = path[T], ws = pre[T]; else { i64 k = (T - h) / L, r = (T - h) % L; want = path[h + r]; ws = (i64)(((__int128)k * cs + pre[h + r]) % 1000003); }
        EQ(d.query(u, T), want); auto r = ds.query(u, T); EQ(r.v, want); EQ(r.sum, ws % 1000003); EQ(f.kth_iterate(T)[u], want); { W e; i64 h2 = std::min(T, h); for (i64 i = 0; i < h2; ++i) e = w_op(e, ww[path[i]]); if (T > h) { W c; for (i64 i = 0; i < L; ++i) c = w_op(c, ww[path[h + i]]); e = w_op(e, wpow(c, (T - h) / L)); for (i64 i = 0; i < (T - h) % L; ++i) e = w_op(e, ww[path[h + i]]); } auto rw = dw.query(u, T); EQ(rw.v, want); EQ(rw.sum, e); } g.nontrivial(T > (1ll << 31) && L > 1);
    }
}
