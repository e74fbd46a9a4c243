#include "common.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
using namespace hv;
template <class C> static void structure(Gen& g, int n, const Adj& a, const C& c) {
    int root = -1; for (int v = 0; v < n; ++v) if (c.dct_parent(v) == -1) { CK(root < 0); root = v; } CK(root >= 0);
    for (int v = 0; v < n; ++v) { EQ(c.dct_depth(v), (v == root ? 0 : c.dct_depth(c.dct_parent(v)) + 1)); }
    for (int v = 0; v < n; ++v) { // component of v among vertices not above it in the decomposition
        std::vector<int> q{ v }; std::vector<bool> s(n); s[v] = true; for (size_t i = 0; i < q.size(); ++i) for (int u : a[q[i]]) if (!s[u] && c.dct_depth(u) > c.dct_depth(v)) s[u] = true, q.push_back(u);
        EQ(c.dct_size(v), (int)q.size()); for (int u : q) { int x = u; while (x != v && x != -1) x = c.dct_parent(x); EQ(x, v); } if (v != root) CK(2 * c.dct_size(v) <= c.dct_size(c.dct_parent(v)));
    }
    (void)g;
}
PBT(centroid_decomposition, 6000, "at least 6 vertices", 8, 12) {
    int n = g.size(1, 40); auto es = g.tree(n); Adj a = adj_of(n, es); g.nontrivial(n >= 6); g.note("n ", n, es);
    suisen::CentroidDecompositionUnweighted c(suisen::UnweightedGraph::create_undirected_graph(n, es)); structure(g, n, a, c);
    std::vector<std::tuple<int, int, W>> we; std::map<std::pair<int, int>, W> ew; for (auto [u, v] : es) { W w = w_of(g.raw(50)); we.emplace_back(u, v, w); ew[{ u, v }] = ew[{ v, u }] = w; } suisen::CentroidDecompositionWeighted<W> d(suisen::WeightedGraph<W>::create_undirected_graph(n, we)); structure(g, n, a, d);
    for (int q = 5; q--;) {
        int r = g.raw(n); int rv = g.in(-3, 3); W w0 = w_of(5); g.note("collect ", r); auto x = c.collect(r, rv); auto y = d.collect(r, w_op, w0); CK(x.size() && y.size());
        auto comp = [&](const auto& c, int s) { std::vector<int> q{ s }; std::vector<bool> m(n); m[s] = true; for (size_t i = 0; i < q.size(); ++i) for (int u : a[q[i]]) if (!m[u] && c.dct_depth(u) > c.dct_depth(r)) m[u] = true, q.push_back(u); return sorted(q); };
        auto each = [&](const auto& c, const auto& x, auto val) { std::vector<std::vector<int>> want{ comp(c, r) }; for (int u : a[r]) if (c.dct_depth(u) > c.dct_depth(r)) want.push_back(comp(c, u)); std::sort(want.begin() + 1, want.end()); std::vector<std::vector<int>> got; for (auto& l : x) { std::vector<int> o; for (auto& [v, w] : l) { o.push_back(v); CK(w == val(v)); } got.push_back(sorted(o)); } std::sort(got.begin() + 1, got.end()); EQ(got, want); };
        each(c, x, [&](int v) { return rv + (int)tree_path(a, r, v).size() - 1; }); each(d, y, [&](int v) { auto p = tree_path(a, r, v); W w = w0; for (size_t i = 1; i < p.size(); ++i) w = w_op(w, ew[{ p[i - 1], p[i] }]); return w; });
    }
}
PBT(distance_frequency, 5000, "at least 6 vertices", 8, 36) {
    int n = g.size(1, 40); auto es = g.tree(n); Adj a = adj_of(n, es); g.nontrivial(n >= 6); auto f = suisen::frequency_table_of_tree_distance(n, es); std::vector<i64> want(n); for (int v = 0; v < n; ++v) for (int d : bfs_dist(a, v)) ++want[d]; for (int i = 1; i < n; ++i) want[i] /= 2; EQ((int)f.size(), n); for (int i = 1; i < n; ++i) EQ(f[i], want[i]);
}
PBT(distance_frequency_large, 3, "always: more than 31,595 vertices at one distance") { // spider with k legs of length 1 or 2: closed form
    int k = g.in(31600, 40000), two = g.in(0, k); int n = 1 + k + two; std::vector<std::pair<int, int>> es; for (int i = 1; i <= k; ++i) es.emplace_back(0, i); for (int i = 1; i <= two; ++i) es.emplace_back(i, k + i); g.nontrivial(); auto f = suisen::frequency_table_of_tree_distance(n, es);
    std::vector<i64> w(6); w[1] = k + two; w[2] = (i64)k * (k - 1) / 2 + two; w[3] = (i64)two * (k - 1); w[4] = (i64)two * (two - 1) / 2; for (int i = 1; i < n; ++i) EQ(f[i], (i <= 4 ? w[i] : 0));
}
