#include "common.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
using namespace hv;
// value of the tree rooted at r for DP: h(v) = sum over children c of sub(h(c), c, edge)
template <class Op, class Sub, class Root> static std::vector<Z> brute(int n, const Adj& a, const std::map<std::pair<int, int>, i64>& ew, Z e, Op op, Sub sub, Root root) {
    std::vector<Z> res(n); auto rec = [&](auto rec, int v, int p) -> Z { Z s = e; for (int c : a[v]) if (c != p) s = op(s, sub(rec(rec, c, v), c, ew.at({ v, c }))); return s; }; for (int r = 0; r < n; ++r) res[r] = root(rec(rec, r, -1), r); return res;
}
PBT(rerooting, 5000, "at least 5 vertices", 8, 23) {
    int n = g.size(1, 25); auto es = g.tree(n); Adj a = adj_of(n, es); std::vector<i64> vw = g.vec<i64>(n, 0, 1000); std::map<std::pair<int, int>, i64> ew; for (auto [u, v] : es) ew[{ u, v }] = ew[{ v, u }] = g.range(0, 1000); g.note("n ", n, es); g.nontrivial(n >= 5);
    bool mx = g.coin(); auto op = [mx](Z x, Z y) { return mx ? (x.v < y.v ? y : x) : x + y; }; auto e = [] { return Z(0); }; auto inv = [](Z x) { return -x; }; auto sum = [](Z x, Z y) { return x + y; };
    Z k1 = (i64)g.raw(P), k2 = (i64)g.raw(P);
    auto mix = [=](Z x, i64 p, i64 q) { Z y = x * k1 + Z(p) * k2 + Z(q); return y * y + Z(1); };
    auto fill = [&](auto& R, bool w) { for (auto [u, v] : es) { if constexpr (std::is_convertible_v<i64, typename std::decay_t<decltype(R)>::edge_weight>) R.add_edge(u, v, ew[{ u, v }]); else R.add_edge(u, v); } (void)w; };
    switch (g.raw(4)) {
    case 0: { suisen::Rerooting R(n); fill(R, 0); auto s = [&](Z x) { return mix(x, 0, 0); }; auto r = [&](Z x) { return mix(x, 7, 9); }; auto ss = [&](Z x, int, i64) { return s(x); }; auto rr = [&](Z x, int) { return r(x); }; EQ(R.run_dp(op, e, s, r), brute(n, a, ew, 0, op, ss, rr)); suisen::RerootingInvertible I(n); fill(I, 0); EQ(I.run_dp(sum, e, inv, s, r), brute(n, a, ew, 0, sum, ss, rr)); break; }
    case 1: { suisen::RerootingVertexWeighted<i64> R; R.reserve(n); for (i64 x : vw) R.add_vertex(g.coin() ? x : x); fill(R, 0); auto s = [&](Z x, i64 v) { return mix(x, v, 0); }; auto r = [&](Z x, i64 v) { return mix(x, v, 9); }; auto ss = [&](Z x, int v, i64) { return s(x, vw[v]); }; auto rr = [&](Z x, int v) { return r(x, vw[v]); }; EQ(R.run_dp(op, e, s, r), brute(n, a, ew, 0, op, ss, rr)); suisen::RerootingInvertibleVertexWeighted<i64> I(vw); fill(I, 0); EQ(I.run_dp(sum, e, inv, s, r), brute(n, a, ew, 0, sum, ss, rr));
        for (auto& x : vw) x = g.range(0, 1000); R.set_vertex_weights(vw); I.set_vertex_weights(vw); EQ(R.run_dp(op, e, s, r), brute(n, a, ew, 0, op, ss, rr)); EQ(I.run_dp(sum, e, inv, s, r), brute(n, a, ew, 0, sum, ss, rr)); break; }
    case 2: { suisen::RerootingEdgeWeighted<i64> R(n); fill(R, 1); auto s = [&](Z x, i64 w) { return mix(x, 0, w); }; auto r = [&](Z x) { return mix(x, 3, 9); }; auto ss = [&](Z x, int, i64 w) { return s(x, w); }; auto rr = [&](Z x, int) { return r(x); }; EQ(R.run_dp(op, e, s, r), brute(n, a, ew, 0, op, ss, rr)); suisen::RerootingInvertibleEdgeWeighted<i64> I(n); fill(I, 1); EQ(I.run_dp(sum, e, inv, s, r), brute(n, a, ew, 0, sum, ss, rr)); break; }
    default: { suisen::RerootingWeighted<i64, i64> R(vw); fill(R, 1); auto s = [&](Z x, i64 v, i64 w) { return mix(x, v, w); }; auto r = [&](Z x, i64 v) { return mix(x, v, 9); }; auto ss = [&](Z x, int v, i64 w) { return s(x, vw[v], w); }; auto rr = [&](Z x, int v) { return r(x, vw[v]); }; EQ(R.run_dp(op, e, s, r), brute(n, a, ew, 0, op, ss, rr)); suisen::RerootingInvertibleWeighted<i64, i64> I(vw); fill(I, 1); EQ(I.run_dp(sum, e, inv, s, r), brute(n, a, ew, 0, sum, ss, rr)); }
    }
}
// top tree DP: value(v) = vw[v] * (sum of children's (value * ew + 1)) + vw[v]
static std::vector<Z> VW, EW; static std::vector<int> PAR; static std::string bad;
static A t_vertex(int v) { return A{ VW[v], VW[v] }; }
static Z t_add_edge(A& p, int v, int q) { if (PAR[v] != q) bad = "add_edge called with wrong parent"; return EW[v] * a_app(p, 0) + Z(1); }
static Z t_merge(Z& x, Z& y) { return x + y; }
static A t_root(Z& s, int v) { return A{ VW[v], VW[v] * s + VW[v] }; }
// the heavy edge weight is folded into the lower path
struct PathDP { A f; int top = -1; };
static PathDP p_vertex(int v) { return { t_vertex(v), v }; }
static Z p_add_edge(PathDP& p, int v, int q) { if (p.top != v) bad = "add_edge of a path whose top is another vertex"; return t_add_edge(p.f, v, q); }
static PathDP p_root(Z& s, int v) { return { t_root(s, v), v }; }
static PathDP p_merge(PathDP& hi, PathDP& lo) { A edge{ EW[lo.top], 1 }; return { a_comp(a_comp(hi.f, edge), lo.f), hi.top }; }
PBT(static_top_tree, 6000, "at least 5 vertices and an update", 8, 12) {
    int n = g.size(1, 40); auto es = g.tree(n); Adj a = adj_of(n, es); int r = g.raw(n); g.note("n ", n, " root ", r, es); auto par = parents(a, r); PAR = par; bad.clear(); VW.resize(n), EW.resize(n); for (int i = 0; i < n; ++i) VW[i] = (i64)g.raw(P), EW[i] = (i64)g.raw(P);
    suisen::static_toptree t(a, r); auto dp = t.tree_dp<Z, PathDP, p_vertex, p_add_edge, t_merge, p_root, p_merge>();
    auto val = [&](auto val, int v) -> Z { Z s = 0; for (int c : a[v]) if (c != par[v]) s += EW[c] * val(val, c) + Z(1); return VW[v] * s + VW[v]; }; auto cnt = [&](auto cnt, int v) -> int { int s = 1; for (int c : a[v]) if (c != par[v]) s += cnt(cnt, c); return s; };
    for (int v = 0; v < n; ++v) EQ(t.parent(v), par[v]), EQ(t.subtree_size(v), cnt(cnt, v));
    EQ(a_app(dp().f, 0), val(val, r)); EQ(bad, std::string());
    for (int q = g.in(0, 12); q--;) { int v = g.raw(n); VW[v] = (i64)g.raw(P); g.note("update ", v); EQ(a_app(dp.update(v).f, 0), val(val, r)); EQ(a_app(dp.answer().f, 0), val(val, r)); g.nontrivial(n >= 5); } EQ(bad, std::string());
}
static std::string canon(const Adj& a, int v, int p, int avoid = -1) { std::vector<std::string> c; for (int u : a[v]) if (u != p && u != avoid) c.push_back(canon(a, u, v)); std::sort(c.begin(), c.end()); std::string s = "("; for (auto& x : c) s += x; return s + ")"; }
template <class H> static void iso(Gen& g) {
    suisen::RootedTreeClassifier<H> C; std::map<std::string, int> id; std::map<int, std::string> rid; auto same = [&](const std::string& s, int x) { auto it = id.try_emplace(s, x).first; EQ(it->second, x); auto jt = rid.try_emplace(x, s).first; EQ(jt->second, s); };
    std::vector<Adj> ts; for (int k = g.in(1, 5); k--;) {
        Adj a; if (ts.size() && g.chance(2, 3)) { const Adj& b = g.pick(ts); int n = b.size(); auto p = g.perm(n); a.resize(n); for (int v = 0; v < n; ++v) { for (int u : b[v]) a[p[v]].push_back(p[u]); } for (auto& l : a) g.shuffle(l); if (n >= 3 && g.coin()) { // move one leaf
                    int l = g.raw(n); while (a[l].size() != 1) l = (l + 1) % n; int q = a[l][0]; a[q].erase(std::find(a[q].begin(), a[q].end(), l)); int w = g.raw(n); if (w == l) w = q; a[l] = { w }; a[w].push_back(l); } }
        else { int n = g.chance(1, 4) ? g.size(1, 12) : 2 * g.in(2, 6); a = adj_of(n, g.tree(n)); }
        ts.push_back(a); int n = a.size(); g.note("tree ", a); int r = g.raw(n); auto p = parents(a, r); auto s = C.classify_subtrees(a, r); for (int v = 0; v < n; ++v) same(canon(a, v, p[v]), s[v]); EQ(C.classify(a, r), s[r]); auto t = C.classify_rerooting(a); for (int v = 0; v < n; ++v) same(canon(a, v, -1), t[v]);
    }
    for (auto& a : ts) for (auto& b : ts) {
        int r = g.raw(a.size()), s = g.raw(b.size()); EQ(C.is_isomorphic_rooted(a, r, b, s), canon(a, r, -1) == canon(b, s, -1));
        std::set<std::string> cb; for (int v = 0; v < (int)b.size(); ++v) cb.insert(canon(b, v, -1)); bool want = a.size() == b.size() && cb.count(canon(a, 0, -1)); g.note("pair ", a, " ", b); auto o = C.is_isomorphic(a, b); EQ(o.has_value(), want); if (o) EQ(canon(a, o->first, -1), canon(b, o->second, -1)); if (!want && a.size() == b.size() && a.size() >= 4) g.nontrivial();
    }
}
PBT(tree_isomorphism_naive, 2500, "two non-isomorphic trees of equal size at least 4 compared", 8, 13) { iso<suisen::IDHandlerNaive>(g); }
PBT(tree_isomorphism_zobrist, 2500, "two non-isomorphic trees of equal size at least 4 compared", 8, 12) { iso<suisen::IDHandlerZobrist<2>>(g); }
