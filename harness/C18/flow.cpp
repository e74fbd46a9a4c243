#include "common.hpp"
#include <deque>
#include "library/graph/min_cost_flow.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
using namespace hv;
struct FE { int u, v; i64 cap, cost; };
// minimum cost of each flow amount 0, 1, 2, ... (unit augmentations along Bellman-Ford shortest paths)
static std::vector<i64> unit_costs(int n, const std::vector<FE>& e, int s, int t) {
    struct R { int u, v; i64 c, w; }; std::vector<R> r; for (auto& x : e) r.push_back({ x.u, x.v, x.cap, x.cost }), r.push_back({ x.v, x.u, 0, -x.cost }); std::vector<i64> f{ 0 };
    while (true) { std::vector<i64> d(n, LLONG_MAX); std::vector<int> pe(n, -1); d[s] = 0; for (int it = 0; it < n; ++it) for (size_t i = 0; i < r.size(); ++i) if (r[i].c && d[r[i].u] != LLONG_MAX && d[r[i].u] + r[i].w < d[r[i].v]) d[r[i].v] = d[r[i].u] + r[i].w, pe[r[i].v] = i; if (d[t] == LLONG_MAX) return f; for (int v = t; v != s; v = r[pe[v]].u) --r[pe[v]].c, ++r[pe[v] ^ 1].c; f.push_back(f.back() + d[t]); }
}
template <class Cap, class Cost, suisen::MCFPotentialInitializer I> static void mcf(Gen& g) {
    int n = g.in(2, 8); int s = g.raw(n), t = (s + 1 + g.raw(n - 1)) % n; bool dag = I == suisen::DAG, neg = I != suisen::DIJKSTRA && g.chance(2, 3); auto ord = g.perm(n); std::vector<int> pos(n); for (int i = 0; i < n; ++i) pos[ord[i]] = i; i64 lim = g.pick(std::vector<i64>{ 1, 10, 1000 }); std::vector<i64> pt = g.vec<i64>(n, -lim, lim); std::vector<FE> e; int m = g.size(0, 16);
    for (int i = 0; i < m; ++i) { int u = g.raw(n), v = g.raw(n); if (dag) { if (u == v) continue; if (pos[u] > pos[v]) std::swap(u, v); } i64 c = g.range(0, lim); if (neg && u != v) { if (dag) c = g.range(-lim, lim); else c += pt[v] - pt[u]; } e.push_back({ u, v, g.range(0, 4), c }); } if (dag && pos[s] > pos[t] && g.chance(4, 5)) std::swap(s, t);
    { std::string q; for (auto& x : e) q += " (" + std::to_string(x.u) + ">" + std::to_string(x.v) + " cap " + std::to_string(x.cap) + " cost " + std::to_string(x.cost) + ")"; g.note("n ", n, " s ", s, " t ", t, q); }
    auto f = unit_costs(n, e, s, t); i64 F = f.size() - 1; suisen::MinCostFlow<Cap, Cost, I> fl(n); for (size_t i = 0; i < e.size(); ++i) EQ(fl.add_edge(e[i].u, e[i].v, e[i].cap, e[i].cost), (int)i);
    auto edges = [&](i64 flow, i64 cost) { auto es = fl.get_edges(); EQ(es.size(), e.size()); std::vector<i64> ex(n); i64 c = 0; for (size_t i = 0; i < e.size(); ++i) { auto& x = es[i]; CK(x.from == e[i].u && x.to == e[i].v && (i64)x.cap == e[i].cap && (i64)x.cost == e[i].cost); CK(0 <= x.flow && x.flow <= x.cap); EQ((i64)fl.get_edge(i).flow, (i64)x.flow); ex[x.from] -= x.flow, ex[x.to] += x.flow; c += (i64)x.flow * x.cost; } for (int v = 0; v < n; ++v) EQ(ex[v], v == s ? -flow : v == t ? flow : 0); EQ(c, cost); };
    auto curve = [&](auto sl, i64 upto) { CK(sl.size()); EQ((i64)sl[0].first, 0); EQ((i64)sl[0].second, 0); for (size_t i = 0; i + 1 < sl.size(); ++i) { i64 a = sl[i].first, b = sl[i + 1].first, ca = sl[i].second, cb = sl[i + 1].second; CK(a < b && b <= F); for (i64 x = a; x <= b; ++x) EQ((cb - ca) * (x - a) + ca * (b - a), f[x] * (b - a)); if (i + 2 < sl.size()) CKM((cb - ca) * ((i64)sl[i + 2].first - b) < ((i64)sl[i + 2].second - cb) * (b - a), "slopes not strictly increasing"); } EQ((i64)sl.back().first, upto); };
    i64 arb = 0; while (arb < F && f[arb + 1] < f[arb]) ++arb; i64 lim_f = g.range(0, F + 2); i64 want; std::pair<i64, i64> r;
    switch (g.raw(6)) { case 0: { auto x = fl.min_cost_max_flow(s, t); want = F; r = { x.first, x.second }; break; } case 1: { auto x = fl.min_cost_max_flow(s, t, lim_f); want = std::min(lim_f, F); r = { x.first, x.second }; break; } case 2: { auto x = fl.min_cost_arbitrary_flow(s, t); r = { x.first, x.second }; want = arb; EQ(r.second, f[arb]); want = r.first; CK(0 <= want && want <= F); break; }
    case 3: { auto x = fl.min_cost_max_flow_slope(s, t); curve(x, F); want = F; r = { x.back().first, x.back().second }; break; } case 4: { auto x = fl.min_cost_max_flow_slope(s, t, lim_f); want = std::min(lim_f, F); curve(x, want); r = { x.back().first, x.back().second }; break; } default: { auto x = fl.min_cost_arbitrary_flow_slope(s, t); r = { x.back().first, x.back().second }; curve(x, r.first); EQ(r.second, f[arb]); want = r.first; } }
    EQ(r.first, want); EQ(r.second, f[want]); edges(r.first, r.second); g.nontrivial(F >= 2 && f[F] != 0 && m >= 4);
}
PBT(mcf_bellman_ford, 6000, "a maximum flow of at least 2 units with non-zero cost", 8, 12) { mcf<i64, i64, suisen::BELLMAN_FORD>(g); }
PBT(mcf_dag, 5000, "a maximum flow of at least 2 units with non-zero cost", 8, 12) { mcf<int, i64, suisen::DAG>(g); }
PBT(mcf_dijkstra, 5000, "a maximum flow of at least 2 units with non-zero cost", 8, 12) { if (g.coin()) mcf<int, int, suisen::DIJKSTRA>(g); else mcf<i64, int, suisen::DIJKSTRA>(g); }
PBT(project_selection, 6000, "at least 3 items with a pairwise and a higher-order term", 8, 12) {
    using PS = suisen::ProjectSelection<i64>; int n = g.in(0, 6); PS p(n); std::vector<i64> c(1 << n); int lim = g.pick(std::vector<int>{ 2, 20, 1000000 }); int pw2 = 0, ho = 0; auto bit = [](int m, int i) { return m >> i & 1; };
    auto add = [&](auto f) { for (int m = 0; m < 1 << n; ++m) c[m] += f(m); }; auto distinct = [&](int k) { auto q = g.perm(n); q.resize(k); return q; };
    for (int ops = g.size(0, 14); ops--;) { i64 x = g.range(-lim, lim), y = g.range(0, lim); int k = g.raw(15); if (k >= 2 && n == 0) k = g.raw(2); if (k >= 6 && k < 13 && n < 2) k = 2 + g.raw(4); if (k == 14 && n < 3) k = 13; int i = n ? (int)g.raw(n) : 0, j = n > 1 ? (int)((i + 1 + g.raw(n - 1)) % n) : 0; if (k >= 6 && k < 13) ++pw2; g.note("op ", k, " i ", i, " j ", j, " x ", x, " y ", y);
        switch (k) { case 0: p.add_cost(x); add([&](int) { return x; }); break; case 1: p.add_profit(x); add([&](int) { return -x; }); break; case 2: p.add_cost_0(i, x); add([&](int m) { return bit(m, i) ? 0 : x; }); break; case 3: p.add_cost_1(i, x); add([&](int m) { return bit(m, i) ? x : 0; }); break; case 4: p.add_profit_0(i, x); add([&](int m) { return bit(m, i) ? 0 : -x; }); break;
        case 5: { p.add_profit_1(i, x); add([&](int m) { return bit(m, i) ? -x : 0; }); i64 z = g.range(-lim, lim); if (g.coin()) { p.add_cost(i, PS::CostFunc1{ x, z }); add([&](int m) { return bit(m, i) ? z : x; }); } else { p.add_profit(i, PS::CostFunc1{ x, z }); add([&](int m) { return bit(m, i) ? -z : -x; }); } break; }
        case 6: p.add_cost_01(i, j, y); add([&](int m) { return !bit(m, i) && bit(m, j) ? y : 0; }); break; case 7: p.add_cost_10(i, j, y); add([&](int m) { return bit(m, i) && !bit(m, j) ? y : 0; }); break; case 8: p.add_cost_not_same(i, j, y); add([&](int m) { return bit(m, i) != bit(m, j) ? y : 0; }); break; case 9: p.add_profit_00(i, j, y); add([&](int m) { return !bit(m, i) && !bit(m, j) ? -y : 0; }); break; case 10: p.add_profit_11(i, j, y); add([&](int m) { return bit(m, i) && bit(m, j) ? -y : 0; }); break; case 11: p.add_profit_same(i, j, y); add([&](int m) { return bit(m, i) == bit(m, j) ? -y : 0; }); break;
        case 12: { i64 a = g.range(-lim, lim), b = g.range(-lim, lim), d = g.range(-lim, lim); PS::CostFunc2 f; f[0][0] = a; f[1][1] = b; f[0][1] = d; f[1][0] = a + b - d + y; bool prof = g.coin(); auto h = f; if (prof) for (auto& r : h) for (auto& v : r) v = -v; if (prof) p.add_profit(i, j, h); else p.add_cost(i, j, f); add([&](int m) { return f[bit(m, i)][bit(m, j)]; }); break; }
        case 13: { int k2 = g.in(0, n); auto q = distinct(k2); std::vector<std::size_t> is(q.begin(), q.end()); if (g.coin()) { p.add_profit_all_0(is, y); add([&](int m) { for (int v : q) if (bit(m, v)) return (i64)0; return -y; }); } else { p.add_profit_all_1(is, y); add([&](int m) { for (int v : q) if (!bit(m, v)) return (i64)0; return -y; }); } if (k2 >= 3) ++ho; break; }
        default: { auto q = distinct(3); PS::CostFunc3 f; i64 u[3][2], w[3][3]{}, t1 = g.range(0, lim), t0 = g.range(0, lim), c0 = g.range(-lim, lim); if (g.coin()) t0 = 0; else if (g.coin()) t1 = 0; for (auto& r : u) for (auto& v : r) v = g.range(-lim, lim); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b && g.coin()) w[a][b] = g.range(0, lim); for (int m = 0; m < 8; ++m) { int b[3] = { m >> 2 & 1, m >> 1 & 1, m & 1 }; i64 s = c0; for (int a = 0; a < 3; ++a) { s += u[a][b[a]]; for (int d = 0; d < 3; ++d) if (!b[a] && b[d]) s += w[a][d]; } if (m == 7) s -= t1; if (m == 0) s -= t0; f[b[0]][b[1]][b[2]] = s; } p.add_cost(q[0], q[1], q[2], f); add([&](int m) { return f[bit(m, q[0])][bit(m, q[1])][bit(m, q[2])]; }); ++ho; } }
        if (g.chance(1, 10)) EQ(p.min_cost().first, *std::min_element(c.begin(), c.end()));
    }
    i64 best = *std::min_element(c.begin(), c.end()); bool prof = g.coin(); auto r = prof ? p.max_profit() : p.min_cost(); EQ(prof ? -r.first : r.first, best); EQ((int)r.second.size(), n); int m = 0; for (int i = 0; i < n; ++i) if (r.second[i]) m |= 1 << i; EQ(c[m], best); g.nontrivial(n >= 3 && pw2 && ho);
}
PBT(k_project_selection, 5000, "at least 2 items of at least 3 choices with a pairwise term", 8, 12) {
    using KP = suisen::KProjectSelection<i64>; int n = g.in(0, 4); std::vector<int> ks = g.vec<int>(n, 1, 4); bool uni = g.chance(1, 4); if (uni) ks.assign(n, g.in(1, 4)); KP p = uni ? KP((std::size_t)n, (std::size_t)(n ? ks[0] : 1)) : KP(ks); int tot = 1; for (int k : ks) tot *= k; auto dec = [&](int m) { std::vector<int> x(n); for (int i = 0; i < n; ++i) x[i] = m % ks[i], m /= ks[i]; return x; }; std::vector<i64> c(tot); i64 lim = g.pick(std::vector<i64>{ 2, 20, 100000, 1000000000000 }); int pr = 0; g.note("ks ", ks);
    for (int ops = g.size(0, 8); ops--;) { int k = g.raw(5); if (k >= 2 && !n) k = 0; if (k == 4 && n < 2) k = 2; i64 x = g.range(-lim, lim); if (k == 0) { p.add_cost(x); for (auto& v : c) v += x; } else if (k == 1) { p.add_profit(x); for (auto& v : c) v -= x; } else if (k <= 3) { int i = g.raw(n); auto f = g.vec<i64>(ks[i], -lim, lim); if (k == 2) p.add_cost(i, f); else p.add_profit(i, f); g.note(k == 2 ? "cost " : "profit ", i, " ", f); for (int m = 0; m < tot; ++m) c[m] += k == 2 ? f[dec(m)[i]] : -f[dec(m)[i]]; }
        else { int i = g.raw(n), j = (i + 1 + g.raw(n - 1)) % n; std::vector<std::vector<i64>> f(ks[i], std::vector<i64>(ks[j])); auto a = g.vec<i64>(ks[i], -lim, lim), b = g.vec<i64>(ks[j], -lim, lim); std::vector<std::vector<i64>> q(ks[i], std::vector<i64>(ks[j])); for (auto& r : q) for (auto& v : r) v = g.chance(1, 3) ? 0 : g.range(0, lim); for (int u = 0; u < ks[i]; ++u) for (int v = 0; v < ks[j]; ++v) { f[u][v] = a[u] + b[v]; for (int y = 1; y <= u; ++y) for (int z = 1; z <= v; ++z) f[u][v] -= q[y][z]; } g.note("pair ", i, " ", j, " ", f); p.add_cost(i, j, f); for (int m = 0; m < tot; ++m) { auto y = dec(m); c[m] += f[y[i]][y[j]]; } if (ks[i] >= 3 && ks[j] >= 3) ++pr; } }
    i64 best = *std::min_element(c.begin(), c.end()); bool prof = g.coin(); auto r = prof ? p.max_profit() : p.min_cost(); EQ(prof ? -r.first : r.first, best); EQ((int)r.second.size(), n); int m = 0, mul = 1; for (int i = 0; i < n; ++i) { CK(0 <= r.second[i] && r.second[i] < ks[i]); m += r.second[i] * mul; mul *= ks[i]; } EQ(c[m], best); g.nontrivial(pr);
}
