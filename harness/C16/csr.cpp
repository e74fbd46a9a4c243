#include "common.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/cycle_detection.hpp"
using namespace hv;
using E2 = std::vector<std::pair<int, int>>; using E3 = std::vector<std::tuple<int, int, int>>;
static E2 gen_edges(Gen& g, int n, int maxm, bool loops) { E2 e; if (!n) return e; int m = g.size(0, maxm); for (int i = 0; i < m; ++i) { int u = g.raw(n), v = g.raw(n); if (!loops && u == v) { if (n == 1) continue; v = (u + 1 + g.raw(n - 1)) % n; } e.emplace_back(u, v); if (g.chance(1, 8)) { auto d = e[g.raw(e.size())]; if (g.coin()) std::swap(d.first, d.second); e.push_back(d); } } return e; }
template <class Gr> static auto lists(const Gr& x) { std::vector<std::vector<typename Gr::edge_type>> r(x.size()); for (int i = 0; i < x.size(); ++i) { CK(x[i].size() == int(x[i].end() - x[i].begin())); for (const auto& e : x[i]) r[i].push_back(e); } return r; }
PBT(csr_adjacency, 6000, "at least one erase and one insertion on a graph with 5 edges", 8, 12) {
    int n = g.size(0, 10); auto e = gen_edges(g, n, 25, true); bool dir = g.coin(); std::vector<std::vector<int>> m(n); for (auto [u, v] : e) { m[u].push_back(v); if (!dir) m[v].push_back(u); } g.note("n ", n, " dir ", dir, e);
    suisen::Graph<void> x = dir ? suisen::Graph<void>::create_directed_graph(n, e) : suisen::Graph<void>::create_undirected_graph(n, e);
    if (g.chance(1, 4)) { if (dir) { suisen::DirectedGraphBuilder<> b(n); for (auto p : e) if (g.coin()) b.add_edge(p); else b.emplace_edge(p.first, p.second); x = g.coin() ? b.build_without_move() : b.build(); } else { suisen::UndirectedGraphBuilder<> b(n); b.add_edges(e); x = b.build_without_move(); } } else if (g.chance(1, 4)) x = suisen::Graph<void>(m);
    EQ(x.size(), n); std::vector<int> cap; for (auto& l : m) cap.push_back(l.size()); int er = 0, ins = 0;
    if (n) for (int q = g.in(0, 25); q--;) {
        int u = g.raw(n); auto& l = m[u]; auto& L = x[u]; int k = l.size(), room = cap[u] - k; switch (g.raw(12)) {
        case 0: if (k) { int i = g.raw(k); L.erase(L.cbegin() + i); l.erase(l.begin() + i); ++er; } break;
        case 1: { auto [a, b] = g.seg(k); L.erase(L.cbegin() + a, L.cbegin() + b); l.erase(l.begin() + a, l.begin() + b); er += b - a; } break;
        case 2: if (k) { L.pop_back(); l.pop_back(); ++er; } break;
        case 3: if (g.chance(1, 4)) { L.clear(); l.clear(); er += k; } break;
        case 4: if (room) { int v = g.raw(n); if (g.coin()) L.push_back(v); else L.emplace_back(v); l.push_back(v); ++ins; } break;
        case 5: if (room) { int v = g.raw(n), i = g.in(0, k); if (g.coin()) L.insert(L.cbegin() + i, v); else L.emplace(L.cbegin() + i, v); l.insert(l.begin() + i, v); ++ins; } break;
        case 6: { int c = g.in(0, room), v = g.raw(n), i = g.in(0, k); L.insert(L.cbegin() + i, c, v); l.insert(l.begin() + i, c, v); ins += c; } break;
        case 7: { int c = g.in(0, room), i = g.in(0, k); auto vs = g.vec<int>(c, 0, n - 1); L.insert(L.cbegin() + i, vs.begin(), vs.end()); l.insert(l.begin() + i, vs.begin(), vs.end()); ins += c; } break;
        case 8: if (k) { int i = g.raw(k), v = g.raw(n); if (g.coin()) L[i] = v; else L.at(i) = v; l[i] = v; } break;
        case 9: { suisen::Graph<void> y = x; suisen::Graph<void> z; if (g.coin()) z = std::move(x); else { z = x; x = suisen::Graph<void>::create_directed_graph(1, {}); } x = z; (void)y; } break;
        case 10: { x.shrink_to_fit(); for (int i = 0; i < n; ++i) cap[i] = m[i].size(); } break;
        default: { const auto& C = x; EQ(C[u].size(), k); EQ(C[u].empty(), k == 0); EQ(x[u].capacity(), cap[u]); if (k) { EQ(C[u].front(), l.front()); EQ(C[u].back(), l.back()); EQ(C[u].at(k - 1), l[k - 1]); EQ(*C[u].data(), l[0]); } EQ((std::vector<int>(C[u].rbegin(), C[u].rend())), (std::vector<int>(l.rbegin(), l.rend()))); EQ((std::vector<int>(C[u].crbegin(), C[u].crend())), (std::vector<int>(l.rbegin(), l.rend()))); } }
        EQ(lists(x), m);
    }
    g.nontrivial(e.size() >= 5 && er && ins); EQ(lists(x), m); auto r = x.reversed(); std::vector<std::vector<int>> rm(n); for (int u = 0; u < n; ++u) for (int v : m[u]) rm[v].push_back(u); auto rl = lists(r); for (int u = 0; u < n; ++u) EQ(sorted(rl[u]), sorted(rm[u]));
}
PBT(csr_weighted, 3000, "at least 5 edges", 8, 12) {
    int n = g.size(1, 10); auto e = gen_edges(g, n, 20, true); bool dir = g.coin(); E3 w; for (auto [u, v] : e) w.emplace_back(u, v, g.in(0, 9)); std::vector<std::vector<std::pair<int, int>>> m(n), rm(n); for (auto [u, v, c] : w) { m[u].emplace_back(v, c); if (!dir) m[v].emplace_back(u, c); } for (int u = 0; u < n; ++u) for (auto [v, c] : m[u]) rm[v].emplace_back(u, c); g.nontrivial(e.size() >= 5);
    auto x = dir ? suisen::Graph<int>::create_directed_graph(n, w) : suisen::Graph<int>::create_undirected_graph(n, w); if (g.coin()) { auto y = x; x = y; } if (g.coin()) x.shrink_to_fit(); auto chk = [&](const suisen::Graph<int>& x, const auto& m) { for (int u = 0; u < n; ++u) { std::vector<std::pair<int, int>> l; for (const auto& t : x[u]) { l.emplace_back(int(t), x.get_weight(t)); } EQ(sorted(l), sorted(m[u])); } }; chk(x, m); chk(x.reversed(), rm);
}
// undirected DFS tree: spanning forest + back edges only, each edge once
template <class T> static void dfs_tree_check(Gen& g, int n, const E3& w) {
    using Gr = suisen::Graph<T>; Gr x; { std::vector<typename Gr::input_edge_type> in; for (auto [u, v, c] : w) { if constexpr (Gr::weighted) in.emplace_back(u, v, c); else in.emplace_back(u, v); (void)c; } if (g.chance(1, 3)) { /* the same graph as arcs in any order */ auto arcs = in; for (auto e : in) { std::swap(std::get<0>(e), std::get<1>(e)); arcs.push_back(e); } g.shuffle(arcs); x = Gr::create_directed_graph(n, arcs); } else { auto y = Gr::create_undirected_graph(n, in); if (g.coin()) x = y; else x = std::move(y); } }
    int s = g.raw(n); auto t = x.dfs_tree(s); std::vector<int> pre(n, -1), pst(n, -1); EQ((int)t.pre_ord.size(), n); EQ((int)t.pst_ord.size(), n); EQ(t.pre_ord[0], s); for (int i = 0; i < n; ++i) { CK(pre[t.pre_ord[i]] < 0 && pst[t.pst_ord[i]] < 0); pre[t.pre_ord[i]] = i; pst[t.pst_ord[i]] = i; }
    std::multiset<std::tuple<int, int, int>> want; for (auto [u, v, c] : w) want.insert({ std::min(u, v), std::max(u, v), Gr::weighted ? c : 1 }); int tree = 0, back = 0; Adj ad(n); for (auto [u, v, c] : w) ad[u].push_back(v), ad[v].push_back(u);
    auto anc = [&](int a, int b) { return pre[a] <= pre[b] && pst[a] >= pst[b]; };
    for (int u = 0; u < n; ++u) { for (const auto& e : t.tree[u]) { int v = e; EQ(t.par[v], u); CK(pre[u] < pre[v] && pst[u] > pst[v]); auto it = want.find({ std::min(u, v), std::max(u, v), (int)x.get_weight(e) }); CK(it != want.end()); want.erase(it); ++tree; } for (const auto& e : t.back[u]) { int v = e; CK(u != v && anc(v, u)); auto it = want.find({ std::min(u, v), std::max(u, v), (int)x.get_weight(e) }); CK(it != want.end()); want.erase(it); ++back; } }
    CK(want.empty()); int roots = 0; for (int u = 0; u < n; ++u) { if (t.par[u] == -1) ++roots; else CK(anc(t.par[u], u)); } int comps = 0; std::vector<bool> seen(n); for (int u = 0; u < n; ++u) if (!seen[u]) { ++comps; auto d = bfs_dist(ad, u); for (int v = 0; v < n; ++v) if (d[v] >= 0) seen[v] = true; } EQ(roots, comps); EQ(tree, n - comps); g.nontrivial(tree >= 3 && back >= 2);
}
PBT(dfs_tree, 5000, "at least three tree edges and two back edges", 8, 12) { int n = g.in(1, 10); auto e = gen_edges(g, n, 25, false); E3 w; for (auto [u, v] : e) w.emplace_back(u, v, g.in(0, 1)); g.note("n ", n, w); if (g.coin()) dfs_tree_check<void>(g, n, w); else dfs_tree_check<int>(g, n, w); }
template <class T> static void cycle_check(Gen& g, int n, const E3& w, bool dir) {
    using Gr = suisen::Graph<T>; std::vector<typename Gr::input_edge_type> in; std::multiset<std::tuple<int, int, int>> pool; for (auto [u, v, c] : w) { if constexpr (Gr::weighted) in.emplace_back(u, v, c); else in.emplace_back(u, v); pool.insert({ dir ? u : std::min(u, v), dir ? v : std::max(u, v), Gr::weighted ? c : 1 }); }
    Gr x = dir ? Gr::create_directed_graph(n, in) : Gr::create_undirected_graph(n, in); auto c = [&] { if (dir) return suisen::get_cycle_directed(x); else return suisen::get_cycle_undirected(x); }();
    bool has = false; if (dir) { std::vector<int> deg(n); Adj a(n); for (auto [u, v, c] : w) a[u].push_back(v), ++deg[v]; std::vector<int> q; for (int i = 0; i < n; ++i) if (!deg[i]) q.push_back(i); for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (!--deg[v]) q.push_back(v); has = (int)q.size() < n; } else { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); auto f = [&](int a) { while (p[a] != a) a = p[a]; return a; }; for (auto [u, v, c] : w) { int a = f(u), b = f(v); if (a == b) has = true; p[a] = b; } }
    EQ(c.has_value(), has); if (c) { CK(c->size() >= 1); int cur = c->back(); std::set<int> vs; for (const auto& e : *c) { int v = e; CK(vs.insert(v).second); auto it = pool.find({ dir ? cur : std::min(cur, v), dir ? v : std::max(cur, v), (int)Gr::get_weight(e) }); CKM(it != pool.end(), "cycle uses an edge that does not exist (often enough)"); pool.erase(it); cur = v; } if (c->size() >= 3) g.nontrivial(); }
}
PBT(cycle_detection, 6000, "a cycle of length at least 3", 8, 12) { int n = g.in(1, 10); auto e = gen_edges(g, n, 12, g.chance(1, 4)); if (g.coin()) { e.clear(); auto rk = g.perm(n); for (int i = 0; i < n; ++i) for (int k = g.in(0, 1); k >= 0; --k) if (i) e.emplace_back(rk[g.raw(i)], rk[i]); if (g.coin()) e.emplace_back(g.raw(n), g.raw(n)); if (g.coin()) e = uniq(e); g.shuffle(e); } E3 w; for (auto [u, v] : e) w.emplace_back(u, v, g.in(0, 1)); bool dir = g.coin(); g.note("n ", n, " dir ", dir, w); if (g.coin()) cycle_check<void>(g, n, w, dir); else cycle_check<int>(g, n, w, dir); }
PBT(functional_graph, 6000, "a vertex at distance at least 2 from its loop", 8, 12) {
    int n = g.size(1, 20); std::vector<int> f(n); if (g.coin()) for (auto& x : f) x = g.raw(n); else { auto p = g.perm(n); for (int i = 0; i < n; ++i) f[p[i]] = p[i == 0 ? g.raw(n) : std::max(0, i - 1 - (int)g.raw(2))]; } suisen::FunctionalGraph F(f); if (g.coin()) { F = suisen::FunctionalGraph(n); for (int i = 0; i < n; ++i) F[i] = f[i]; } g.note(f); for (int i = 0; i < n; ++i) EQ(F[i], f[i]);
    auto it = [&](int u, i64 k) { std::vector<int> seen(n, -1), path; while (k > 0 && seen[u] < 0) seen[u] = path.size(), path.push_back(u), u = f[u], --k; if (k > 0) { int len = path.size() - seen[u]; return path[seen[u] + k % len]; } return u; };
    auto ps = F.infinite_paths(); EQ((int)ps.size(), n); for (int u = 0; u < n; ++u) { std::vector<int> seen(n, -1); int v = u, t = 0; while (seen[v] < 0) seen[v] = t++, v = f[v]; EQ(ps[u].head_v, u); EQ(ps[u].head_len, seen[v]); EQ(ps[u].loop_v, v); EQ(ps[u].loop_len, t - seen[v]); g.nontrivial(seen[v] >= 2); }
    i64 k = g.pick<i64>({ g.range(0, 3), g.range(0, 2 * n), g.edgy(0, LLONG_MAX), 1000000000000000000LL }); auto ki = F.kth_iterate(k); for (int u = 0; u < n; ++u) EQ(ki[u], it(u, k));
    i64 mx = g.pick<i64>({ 0, 1, g.range(1, 40), g.edgy(1, LLONG_MAX / 4) }); g.note("k ", k, " max ", mx); auto D = F.doubling(mx); std::vector<W> w(n); for (auto& x : w) x = w_of(g.raw(50)); std::vector<i64> nn = g.vec<i64>(n, 0, 5); i64 mx2 = g.range(1, 100); auto DW = F.doubling<W, w_op, w_e>(mx2, w); auto DS = F.doubling<i64, add_ll, zero_ll>(mx2, nn); int lg = 0; while ((2LL << lg) <= mx) ++lg; i64 lim = 2LL << lg; int lg2 = 0; while ((2LL << lg2) <= mx2) ++lg2; i64 lim2 = 2LL << lg2;
    for (int q = 8; q--;) {
        int u = g.raw(n); i64 d = g.coin() ? mx : g.range(0, mx); EQ(D.query(u, d), it(u, d)); i64 d2 = g.range(0, mx2); { W s; int v = u; for (i64 i = 0; i < d2; ++i) s = w_op(s, w[v]), v = f[v]; std::pair<int, W> r = DW.query(u, d2); EQ(r.first, v); EQ(r.second, s); }
        std::vector<bool> S(n); for (int i = g.in(0, 2); i--;) { int v = g.raw(n); while (!S[v]) S[v] = true, v = f[v]; } auto pr = [&](int v) { return (bool)S[v]; }; i64 first = -1; { int v = u; for (int i = 0; i <= n; ++i, v = f[v]) if (S[v]) { first = i; break; } }
        auto r = D.step_until(u, pr); g.note("step_until ", u, " first ", first); if (first >= 0 && first <= std::max<i64>(mx, 0)) CK(r.has_value()); if (first < 0 || first > lim) CK(!r); if (r) { EQ(r->step, first); EQ(r->v, it(u, first)); CK(S[r->v]); }
        if (!S[u]) { auto m = D.max_step(u, [&](int v) { return !S[v]; }); i64 want = first < 0 ? lim - 1 : std::min(first - 1, lim - 1); EQ(m.step, want); EQ(m.v, it(u, want)); }
        i64 X = g.range(0, 60); { auto m = DS.max_step(u, [&](i64 s) { return s <= X; }); i64 st = 0, s = 0; int v = u; while (st < lim2 - 1 && s + nn[v] <= X) s += nn[v], v = f[v], ++st; EQ(m.v, v); EQ(m.sum, s); EQ(m.step, st); }
        { auto m = DS.step_until(u, [&](i64 s) { return s >= X; }); i64 st = 0, s = 0; int v = u; while (st < lim2 && s < X) s += nn[v], v = f[v], ++st; if (s < X) CK(!m); else if (st <= mx2) CK(m.has_value()); if (m) { EQ(m->v, v); EQ(m->sum, s); EQ(m->step, st); } }
    }
}
