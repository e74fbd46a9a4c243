// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/segment_tree_graph.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/datastructure/permutation_tree.hpp"
using namespace hv;
static constexpr int n0 = 1 << 11, n1 = 1 << 16;
using E2 = std::vector<std::pair<int, int>>;
// long paths with chords, a hub with spokes and rim, a tree with few extra edges, random, one long cycle
static E2 graph(Bulk& b, int n, int kind) {
    E2 e;
    switch (kind) {
        case 0: for (int i = 1; i < n; ++i) e.emplace_back(i - 1, i); for (int i = 0; i + 8 < n; i += 5) e.emplace_back(i, i + 6); break;
        case 1: for (int i = 1; i < n; ++i) { e.emplace_back(0, i); if (i + 1 < n) e.emplace_back(i, i + 1); } break;
        case 2: e = b.tree(n, 6, true); for (int i = 0; i < n / 10; ++i) e.emplace_back(b.in(0, n - 1), b.in(0, n - 1)); break;
        case 3: for (int i = 0; i < 2 * n; ++i) e.emplace_back(b.in(0, n - 1), b.in(0, n - 1)); break;
        default: for (int i = 0; i < n; ++i) e.emplace_back(i, (i + 1) % n);
    }
    for (auto& [u, v] : e) if (u == v) v = u ? u - 1 : u + 1; return e;
}
PBT(shortest_path_cost, 2, "every case: cost at two sizes compared, five graph families") {
    for (int kind = 0; kind < 5; ++kind) {
        std::string nm = ", family " + std::to_string(kind);
        grows(g, "dijkstra" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind); std::vector<std::vector<std::pair<int, i64>>> a(n); int k = 0; for (auto [u, v] : e) { i64 w = kind == 1 && u == 0 ? 3 * i64(n) - 2 * v : kind == 0 ? (v - u) * (v - u) : b.in(0, 1000); a[u].emplace_back(v, w), a[v].emplace_back(u, w); ++k; } return cost([&] { suisen::dijkstra<i64> D(a, 0); K << D[n - 1]; K << D.path_to(n - 1); }); });
        grows(g, "bfs" + nm, o_n, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind); auto A = adj_of(n, e); for (auto [u, v] : e) A[v].push_back(u); return cost([&] { suisen::BFS q(n, e); K << q.distance(0) << q.connected_components(); suisen::BFS01 z(n, { 0 }, [&](int u, auto f) { for (int v : A[u]) f(v, (u ^ v) & 1); }); K << z[n - 1]; }); }, 1.8);
        grows(g, "complement bfs" + nm, o_n, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind); return cost([&] { suisen::ComplementBFS q(n, e); K << q.distance(0) << q.connected_components(); }); }, 1.8);
        grows(g, "topological order, DAG distances, cycles" + nm, o_n, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind), f = E2{}; for (auto [u, v] : e) if (u != v) f.emplace_back(std::min(u, v), std::max(u, v)); Adj a(n); std::vector<std::tuple<int, int, i64>> w; for (auto [u, v] : f) a[u].push_back(v), w.emplace_back(u, v, 1); return cost([&] { K << suisen::topological_sort(a).sorted(); auto G = suisen::Graph<i64>::create_directed_graph(n, w); K << suisen::single_source_shortest_path_dag(G, 0); auto x = suisen::Graph<void>::create_directed_graph(n, f); K << suisen::get_cycle_directed(x); auto y = suisen::Graph<void>::create_undirected_graph(n, e); K << suisen::get_cycle_undirected(y) << y.dfs_tree(0); }); }, 1.8);
    }
    // a hub of large degree whose tentative distance is improved by every vertex of the first layer
    grows(g, "dijkstra, hub improved many times", o_nlog, n0, n1, [=](int n, Bulk&) { int k = n / 2 - 1; std::vector<std::vector<std::pair<int, i64>>> a(2 * k + 2); for (int i = 1; i <= k; ++i) { a[0].emplace_back(i, i); a[i].emplace_back(k + 1, 2LL * (k - i) + 10 * k); a[k + 1].emplace_back(k + 1 + i, 1); } return cost([&] { suisen::dijkstra<i64> D(a, 0); K << D[k + 1] << D.path_to(2 * k + 1); }); });
}
PBT(connectivity_cost, 2, "every case: cost at two sizes compared, five graph families") {
    for (int kind = 0; kind < 5; ++kind) {
        std::string nm = ", family " + std::to_string(kind);
        grows(g, "bridges, blocks, block-cut forest" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind); auto A = adj_of(n, e); for (auto [u, v] : e) A[v].push_back(u); return cost([&] { suisen::TwoEdgeConnectedComponents t(n, e); for (auto [u, v] : e) K << t.is_bridge(u, v); suisen::BiconnectedComponents l(n, e); K << l.components(); suisen::BlockCutForest F(l); K << F.size(); K << suisen::bipartite_coloring(A); }); });
        grows(g, "Euler circuits" + nm, o_n, n0, n1, [=](int n, Bulk& b) { auto e = graph(b, n, kind), f = e; std::vector<int> w{ 0 }; for (auto [u, v] : e) w.push_back(v); return cost([&] { suisen::DirectedEulerianGraph D(n); suisen::UndirectedEulerianGraph U(n); for (size_t i = 0; i < w.size(); ++i) { int x = w[i], y = w[(i + 1) % w.size()]; D.add_edge(x, y), U.add_edge(x, y); } K << D.eulerian_circuit(0) << U.eulerian_circuit(0); suisen::DirectedEulerianGraph D2 = D; K << D2.eulerian_trail(); }); }, 1.8);
    }
}
PBT(functional_cost, 2, "every case: cost at two sizes compared") {
    for (int kind = 0; kind < 4; ++kind) grows(g, "functional graph, family " + std::to_string(kind), o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<int> f(n); for (int i = 0; i < n; ++i) f[i] = kind == 0 ? (i + 1) % n : kind == 1 ? std::max(0, i - 1) : kind == 2 ? b.in(0, n - 1) : i < n / 2 ? (i + 1) % (n / 2) : i - 1; return cost([&] { suisen::FunctionalGraph F(f); K << F.infinite_paths() << F.kth_iterate(1000000000000LL); auto D = F.doubling(n); for (int i = 0; i < n; ++i) K << D.query(i, n - i); }); });
}
PBT(matching_cost, 2, "every case: cost at two sizes compared") {
    // augmenting chains where matching one vertex at a time costs a full search each
    for (int kind = 0; kind < 4; ++kind) grows(g, "bipartite matching, family " + std::to_string(kind), o_nsqrt, n0, 1 << 15, [=](int n, Bulk& b) { E2 e; if (kind == 0) for (int i = 0; i < n; ++i) { e.emplace_back(i, i); if (i + 1 < n) e.emplace_back(i, i + 1); } else if (kind == 1) for (int i = n; i-- > 0;) { if (i + 1 < n) e.emplace_back(i, i + 1); e.emplace_back(i, i); } else if (kind == 2) for (int i = 0; i < 3 * n; ++i) e.emplace_back(b.in(0, n - 1), b.in(0, n - 1)); else for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) e.emplace_back(i, b.in(0, n / 2)); return cost([&] { suisen::BipartiteMatching m(n, n); for (auto [u, v] : e) m.add_edge(u, v); K << m.solve() << m.min_vertex_cover() << m.min_edge_cover() << m.max_independent_set(); }); });
    for (int kind = 0; kind < 2; ++kind) grows(g, "bipartite edge colouring, family " + std::to_string(kind), o_nlog2, 1 << 9, 1 << 14, [=](int n, Bulk& b) { int m = kind ? n / 16 : n / 64; return cost([&] { suisen::EdgeColoringOfBipartiteGraph c(m, m); Bulk z = b; for (int i = 0; i < n; ++i) c.add_edge(z.in(0, m - 1), z.in(0, m - 1)); K << c.solve(); }); });
}
PBT(spanning_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "minimum spanning tree", o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<std::tuple<int, int, i64>> e; for (int i = 0; i < 2 * n; ++i) e.emplace_back(b.in(0, n - 1), b.in(0, n - 1), b.in(0, 1000000)); return cost([&] { suisen::KruscalMinimumSpanningTree<i64> k(n); for (auto [u, v, w] : e) k.add_edge(u, v, w); K << k.build() << k.get_mst(); }); });
    for (int kind = 0; kind < 4; ++kind) grows(g, "Manhattan spanning tree, points " + std::to_string(kind), o_nlog, n0, 1 << 15, [=](int n, Bulk& b) { std::vector<std::pair<i64, i64>> p(n); for (int i = 0; i < n; ++i) p[i] = kind == 0 ? std::pair<i64, i64>{ i, i } : kind == 1 ? std::pair<i64, i64>{ i, 0 } : kind == 2 ? std::pair<i64, i64>{ i, -i } : std::pair<i64, i64>{ b.in(0, 1000000), b.in(0, 1000000) }; return cost([&] { K << suisen::manhattan_mst<i64>(p).get_weight(); }); });
    grows(g, "Euler circuits, hub", o_n, n0, n1, [](int n, Bulk&) { return cost([&] { suisen::DirectedEulerianGraph D(n); suisen::UndirectedEulerianGraph U(n); for (int i = 1; i < n; ++i) { D.add_edge(0, i), D.add_edge(i, 0); U.add_edge(0, i), U.add_edge(i, 0); } K << D.eulerian_circuit(0) << U.eulerian_circuit(0); }); }, 1.8);
    for (int kind = 0; kind < 4; ++kind) grows(g, "triangles, family " + std::to_string(kind), o_nsqrt, n0, 1 << 15, [=](int n, Bulk& b) { std::set<std::pair<int, int>> s; int s2 = int(std::sqrt(2.0 * n)), N = kind == 0 ? n : kind == 1 ? s2 + 2 : n; if (kind == 3) { for (int i = 0; i < n; ++i) if (i != n / 2) s.emplace(std::min(i, n / 2), std::max(i, n / 2)); } else if (kind == 0) for (int i = 1; i < n; ++i) { s.emplace(0, i); if (i + 1 < n) s.emplace(i, i + 1); } else if (kind == 1) { for (int i = 0; i < s2; ++i) for (int j = 0; j < i; ++j) s.emplace(j, i); } else while ((int)s.size() < n) { int u = b.in(0, n / 8), v = b.in(0, n / 8); if (u != v) s.emplace(std::min(u, v), std::max(u, v)); } Adj a = adj_of(N, E2(s.begin(), s.end())); for (auto& l : a) l = uniq(l); i64 c = 0; return cost([&] { suisen::enumerate_triangles(a, [&](int, int, int) { K << ++c; }); }); });
}
PBT(logic_cost, 2, "every case: cost at two sizes compared") {
    for (int kind = 0; kind < 3; ++kind) grows(g, "2-SAT and Horn-SAT, family " + std::to_string(kind), o_n, n0, n1, [=](int n, Bulk& b) { auto p = b.perm(n); return cost([&] { suisen::TwoSAT t(n); suisen::HornSAT h(n); for (int i = 0; i + 1 < n; ++i) { if (kind == 0) t.implies(i, true, i + 1, true), h.add_clause({ i }, i + 1, true); else if (kind == 1) t.implies(i + 1, true, i, true), h.add_clause({ i, i + 1, p[i] }, 0, true); else t.at_most_one(i, p[i] & 1, p[i + 1], false), h.add_clause({ p[i], i }, p[i + 1], true); } h.add_clause(0, true); K << t.satisfiable() << h.satisfiable(); }); }, 1.8);
    grows(g, "offline dynamic connectivity", o_nlog2, n0, 1 << 14, [=](int n, Bulk& b) { auto es = b.tree(n, 6, true); return cost([&] { suisen::OfflineDynamicConnectivity d(n); for (int i = 0; i < (int)es.size(); ++i) { auto [u, v] = es[i]; d.add_query(u, v); d.connectivity_query(u, 0); if (i >= 100) d.del_query(es[i - 100].first, es[i - 100].second); } K << d.answer(); }); });
    for (int kind = 0; kind < 2; ++kind) grows(g, "area of a union of rectangles", o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<std::tuple<i64, i64, i64, i64>> r(n); for (int i = 0; i < n; ++i) r[i] = kind ? std::make_tuple<i64, i64, i64, i64>(i, 2 * n - i, i, 2 * n - i) : std::make_tuple<i64, i64, i64, i64>(b.in(0, 1000), b.in(1001, 3000), b.in(0, 1000000), b.in(1000001, 2000000)); return cost([&] { K << suisen::area_of_union_of_rectangles<i64>(r); }); });
    for (int kind = 0; kind < 4; ++kind) grows(g, "permutation tree, family " + std::to_string(kind), o_nlog, n0, n1, [=](int n, Bulk& b) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (kind == 1) std::reverse(p.begin(), p.end()); if (kind == 2) p = b.perm(n); if (kind == 3) for (int i = 0; i < n; ++i) p[i] = i % 2 ? n - 1 - i / 2 : i / 2; return cost([&] { suisen::PermutationTree t(p); K << t; }); });
    grows(g, "segment-tree graph edges", o_nlog, n0, n1, [=](int n, Bulk& b) { i64 c = 0; return cost([&] { suisen::SegmentTreeGraph T(n); int o = T.add_order_identity(); T.add_edges_to_children([&](int, int) { K << ++c; }); for (int i = 0; i < n; ++i) { auto [l, r] = b.seg(n); T.add_edge(i, suisen::SegmentTreeGraph::SegmentNode{ o, l, r }, [&](int, int) { K << ++c; }); } }); });
}
