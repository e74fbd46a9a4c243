// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
using namespace hv;
static constexpr int n0 = 1 << 11, n1 = 1 << 16;
using E2 = std::vector<std::pair<int, int>>;
// merge orders: random, chains, star, balanced pairs by a member / by the last member, binomial with the deep end
static E2 merges(Bulk& b, int n, int how) {
    E2 r;
    switch (how) {
        case 0: for (int k = 0; k < n; ++k) r.emplace_back(b.in(0, n - 1), b.in(0, n - 1)); break;
        case 1: for (int i = 0; i + 1 < n; ++i) r.emplace_back(i, i + 1); break;
        case 2: for (int i = 0; i + 1 < n; ++i) r.emplace_back(i + 1, i); break;
        case 3: for (int i = 1; i < n; ++i) r.emplace_back(0, i); break;
        case 4: for (int i = 1; i < n; ++i) r.emplace_back(i, 0); break;
        case 5: for (int i = n; i-- > 1;) r.emplace_back(i - 1, i); break;
        default: for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) r.emplace_back(i + w - 1, std::min(n - 1, i + 2 * w - 1));
    }
    return r;
}
static void addto(i64& a, i64 b) { a += b; }
PBT(union_find_cost, 2, "every case: cost at 2^11 and at 2^16 vertices compared, seven merge orders") {
    for (int how = 0; how < 7; ++how) grows(g, "union-find with compression, order " + std::to_string(how), o_n, n0, n1, [how](int n, Bulk& b) { auto m = merges(b, n, how); auto p = b.perm(n); std::vector<i64> a(n, 1); return cost([&] { suisen::UnionFind t(n); suisen::WeightedUnionFind<i64> w(n); suisen::UnionFindComponentSum<i64, addto> s(a); suisen::LinkedUnionFind l(n); for (auto [x, y] : m) K << t.merge(x, y) << w.merge(x, y, 1) << s.merge(x, y) << l.merge(x, y); for (int x : p) K << t.root(x) << t.size(x) << w.diff(x, x) << w.root(x) << s.sum(x) << l.size(x); }); }, 1.8);
    for (int how = 0; how < 7; ++how) grows(g, "undo union-find, order " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { auto m = merges(b, n, how); auto p = b.perm(n); return cost([&] { suisen::UndoUnionFind t(n); suisen::MergeHistoryForest h(n); int k = 0; for (auto [x, y] : m) k += t.merge(x, y), h.merge(x, y); for (int x : p) K << t.root(x) << h.forest_root(x); while (k--) t.undo(); }); });
    for (int how = 0; how < 7; ++how) grows(g, "persistent union-find, order " + std::to_string(how), o_nlog2, n0, 1 << 14, [how](int n, Bulk& b) { suisen::PersistentUnionFind::init_pool(n * 60); auto m = merges(b, n, how); auto p = b.perm(n); return cost([&] { suisen::PersistentUnionFind t(n); for (auto [x, y] : m) t = t.merge(x, y).first; for (int x : p) K << t.root(x) << t.size(x); }); });
}
static i64 tog(i64 x) { return x; }
PBT(link_cut_cost, 2, "every case: cost at 2^11 and at 2^15 vertices compared, every tree shape") {
    using T = suisen::LinkCutTreePathFoldable<i64, add_ll, zero_ll, tog>;
    for (int shape = 0; shape < 8; ++shape) for (int rl = 0; rl < 2; ++rl) grows(g, "link-cut tree, shape " + std::to_string(shape) + (rl ? " relabelled" : ""), o_nlog, n0, 1 << 15, [=](int n, Bulk& b) { auto es = b.tree(n, shape, rl); T::init_pool(n + 2); auto v = T::make_nodes(std::vector<i64>(n, 1)); auto p = b.perm(n); return cost([&] { for (auto [x, y] : es) T::link(v[x], v[y]); for (int i = 0; i < n; ++i) K << T::prod(v[p[i]], v[p[n - 1 - i]]) << T::is_connected(v[i], v[p[i]]) << T::lca(v[i], v[p[i]]); for (int i = 0; i < n; ++i) K << T::prod(v[i], v[n - 1]); for (auto [x, y] : es) T::cut(v[x], v[y]); }); });
}
PBT(hld_cost, 2, "every case: cost at 2^11 and at 2^16 vertices compared, every tree shape") {
    for (int shape = 0; shape < 8; ++shape) for (int rl = 0; rl < 2; ++rl) {
        std::string nm = ", shape " + std::to_string(shape) + (rl ? " relabelled" : "");
        grows(g, "heavy-light decomposition" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, rl); BigTree t(n, es, 0); auto p = b.perm(n), d = b.perm(n); i64 seen = 0; return cost([&] { suisen::HeavyLightDecomposition h(t.a, std::vector<int>{ 0 }); for (int i = 0; i < n; ++i) { K << h.lca(i, p[i]) << h.dist(p[i], n - 1) << h.la(p[i], h.get_depth(p[i]) / 2) << h.jump(p[i], n - 1, 3, -1); K << h.fold_path(p[i], n - 1, (i64)0, add_ll, [&](int l, int r) { ++seen; K << seen; return i64(r - l); }, false); } }); });
        grows(g, "lca, level ancestor, euler tour" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, rl); BigTree t(n, es, 0); auto p = b.perm(n); return cost([&] { suisen::LowestCommonAncestor L(t.a, 0); suisen::LevelAncestor V(t.a, 0); suisen::EulerTour E(t.a, 0); for (int i = 0; i < n; ++i) K << L.lca(i, p[i]) << L.dist(p[i], n - 1) << V.query(p[i], V.get_depth(p[i]) / 2) << E.lca(p[i], n - 1); K << suisen::find_centroids(t.a); }); });
    }
}
PBT(tree_decomposition_cost, 2, "every case: cost at two sizes compared, every tree shape") {
    for (int shape = 0; shape < 8; ++shape) {
        std::string nm = ", shape " + std::to_string(shape);
        grows(g, "centroid decomposition" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); auto gr = suisen::UnweightedGraph::create_undirected_graph(n, es); return cost([&] { suisen::CentroidDecompositionUnweighted c(gr); for (int v = 0; v < n; ++v) K << c.collect(v); }); });
        grows(g, "contour sums" + nm, o_nlog2, n0, 1 << 14, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); auto p = b.perm(n); std::vector<i64> a(n, 1); return cost([&] { suisen::ContourSumOnTree<i64> c(a); suisen::PointAddRangeContourSum<i64, add_ll, zero_ll> r(a); for (auto [u, v] : es) c.add_edge(u, v), r.add_edge(u, v); c.build(); r.build(); for (int v = 0; v < n; ++v) K << c.sum(v, p[v]) << c.sum(v, 1) << r.sum(v, 0, p[v] % 100), r.add(p[v], 3); }); });
        grows(g, "auxiliary trees" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); BigTree t(n, es, 0); suisen::HeavyLightDecomposition h(t.a, std::vector<int>{ 0 }); suisen::AuxiliaryTree A(h); auto p = b.perm(n); return cost([&] { for (int k : { 2, 30, n / 8 }) for (int i = 0; i + k <= n; i += k) { std::vector<int> vs(p.begin() + i, p.begin() + i + k); A.build(vs); K << A[vs[0]].size(); } }); });
    }
}
static std::vector<Z> VW; struct PD { A f; }; static PD p_vertex(int v) { return { A{ Z(1), VW[v] } }; } static Z p_add(PD& p, int, int) { return Z(5) * a_app(p.f, 0) + Z(2); } static Z t_merge(Z& x, Z& y) { return x + y; } static PD p_root(Z& s, int v) { return { A{ Z(1), s + VW[v] } }; } static PD p_merge(PD& hi, PD& lo) { return { a_comp(hi.f, a_comp(A{ Z(5), Z(2) }, lo.f)) }; }
PBT(tree_dp_cost, 2, "every case: cost at 2^11 and at 2^16 vertices compared, every tree shape") {
    for (int shape = 0; shape < 8; ++shape) {
        std::string nm = ", shape " + std::to_string(shape);
        grows(g, "rerooting" + nm, o_n, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); return cost([&] { suisen::Rerooting R(n); suisen::RerootingInvertible I(n); for (auto [u, v] : es) R.add_edge(u, v), I.add_edge(u, v); K << R.run_dp(add_ll, zero_ll, [](i64 x) { return x + 1; }, [](i64 x) { return x; }); K << I.run_dp(add_ll, zero_ll, [](i64 x) { return -x; }, [](i64 x) { return x + 1; }, [](i64 x) { return x; }); }); }, 1.8);
        grows(g, "static top tree" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); BigTree t(n, es, 0); VW.assign(n, Z(1)); auto p = b.perm(n); return cost([&] { suisen::static_toptree T(t.a, 0); auto dp = T.tree_dp<Z, PD, p_vertex, p_add, t_merge, p_root, p_merge>(); for (int v : p) VW[v] = Z(2), K << dp.update(v); int deep = t.ord.back(); for (int i = 0; i < n; ++i) K << dp.update(deep); }); });
        grows(g, "rooted tree isomorphism classes" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto es = b.tree(n, shape, true); BigTree t(n, es, 0); return cost([&] { suisen::RootedTreeClassifier<suisen::IDHandlerNaive> C; K << C.classify_subtrees(t.a, 0); suisen::RootedTreeClassifier<suisen::IDHandlerZobrist<2>> Y; K << Y.classify_subtrees(t.a, 0) << Y.classify_rerooting(t.a); }); });
    }
}
