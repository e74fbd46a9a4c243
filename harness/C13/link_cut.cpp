#include "common.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace hv;
static RS mp(A f, RS x, int) { return rs_map(f, x); }
using L0 = suisen::LinkCutTree<RS>; using L1 = suisen::LinkCutTreePathFoldable<RS, rs_op, rs_e, rs_tog>; using L2 = suisen::LinkCutTreePathFoldableLazy<RS, rs_op, rs_e, A, mp, a_comp, a_id, rs_tog>;
template <class T, int K> static void lct(Gen& g) {
    using Np = typename T::node_pointer_type; int n = g.chance(1, 4) ? g.size(1, 14) : g.in(5, 16); std::vector<Z> a(n); for (auto& x : a) x = (i64)g.raw(100); T::init_pool(n + 2); std::vector<Np> nd; if (g.coin()) { std::vector<RS> v; for (Z x : a) v.push_back(rs_of(x)); nd = T::make_nodes(v); } else for (Z x : a) nd.push_back(T::make_node(rs_of(x)));
    std::set<std::pair<int, int>> E; auto adj = [&] { return adj_of(n, std::vector<std::pair<int, int>>(E.begin(), E.end())); }; auto idx = [&](Np p) { return int(std::find(nd.begin(), nd.end(), p) - nd.begin()); }; auto fold = [&](const std::vector<int>& p) { RS s; for (int v : p) s = rs_op(s, rs_of(a[v])); return s; }; int cuts = 0;
    auto cutm = [&](int u, int v) { E.erase({ u, v }); E.erase({ v, u }); ++cuts; };
    if (g.chance(3, 4)) for (auto [u, v] : g.tree(n)) if (!g.chance(1, 8)) { T::link(nd[u], nd[v]); E.insert({ u, v }); }
    for (int q = g.chance(1, 4) ? g.size(1, 60) : g.in(15, 60); q--;) {
        int u = g.raw(n), v = g.raw(n), r = g.raw(n), op = g.raw(12); auto G = adj(); auto P = tree_path(G, u, v); g.note("op ", op, " u ", u, " v ", v, " r ", r); if (P.size() > 3 && cuts) g.nontrivial();
        switch (op) {
        case 0: case 1: case 2: if (P.empty()) { T::link(nd[u], nd[v]); E.insert({ u, v }); } break;
        case 3: if (E.size()) { auto it = E.begin(); std::advance(it, g.raw(E.size())); auto [x, y] = *it; if (g.coin()) std::swap(x, y); g.note(" cut ", x, " ", y); T::cut(nd[x], nd[y]); cutm(x, y); } break;
        case 4: { auto p = parents(G, r); if (p[u] >= 0) { g.note(" cut above ", u); T::evert(nd[r]); T::cut(nd[u]); cutm(u, p[u]); } } break;
        case 5: CK(T::is_connected(nd[u], nd[v]) == !P.empty()); break;
        case 6: { T::evert(nd[r]); auto c = T::lca(nd[u], nd[v]); if (tree_path(G, r, u).empty()) break; if (P.empty()) CK(c == nullptr); else { auto pu = tree_path(G, r, u), pv = tree_path(G, r, v); int e = r; for (size_t i = 0; i < std::min(pu.size(), pv.size()) && pu[i] == pv[i]; ++i) e = pu[i]; CK(c != nullptr); EQ(idx(c), e); } } break;
        case 7: { auto p = T::path(nd[u], nd[v]); CK(p.has_value() == !P.empty()); if (p) { std::vector<int> o; for (auto x : *p) o.push_back(idx(x)); EQ(o, P); } } break;
        case 8: { auto R = tree_path(G, r, u); if (R.empty()) break; T::evert(nd[r]); std::vector<int> o; for (auto x : T::path_from_root(nd[u])) o.push_back(idx(x)); EQ(o, R); if constexpr (K >= 1) EQ(T::prod_from_root(nd[u]), fold(R)); } break;
        case 9: { Z x = (i64)g.raw(100); if (g.coin()) { T::set(nd[u], rs_of(x)); a[u] = x; } else { T::update_value(nd[u], [&](RS o) { return rs_of(o.f.s + x); }); a[u] += x; } } break;
        case 10: if constexpr (K >= 1) { if (P.size()) EQ(T::prod(nd[u], nd[v]), fold(P)); } break;
        default: if constexpr (K == 2) { A f = gen_aff(g); if (g.coin()) { if (P.empty()) break; T::apply(nd[u], nd[v], f); for (int x : P) a[x] = a_app(f, a[x]); } else { auto R = tree_path(G, r, u); if (R.empty()) break; T::evert(nd[r]); T::apply_from_root(nd[u], f); for (int x : R) a[x] = a_app(f, a[x]); } }
        }
        EQ(T::get(nd[v]), rs_of(a[v]));
        if constexpr (K >= 1) { if (g.chance(1, 3)) { int x = g.raw(n), y = g.raw(n); auto p = tree_path(adj(), x, y); if (p.size()) EQ(T::prod(nd[x], nd[y]), fold(p)); } }
    }
    for (int i = 0; i < n; ++i) EQ(T::get(nd[i]), rs_of(a[i]));
}
PBT(link_cut_tree, 10000, "a path of at least four vertices queried after a cut", 8, 12) { lct<L0, 0>(g); }
PBT(link_cut_tree_fold, 10000, "a path of at least four vertices queried after a cut", 8, 12) { lct<L1, 1>(g); }
PBT(link_cut_tree_lazy, 10000, "a path of at least four vertices queried after a cut", 8, 12) { lct<L2, 2>(g); }
