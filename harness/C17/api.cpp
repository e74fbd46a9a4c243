#include "common.hpp"
#include "library/graph/block_cut_forest.hpp"
using namespace hv;
PBT(block_cut_const_access, 2000, "an articulation point exists", 8, 12) {
    int n = g.size(1, 12); suisen::BiconnectedComponents b(n); for (int m = g.size(0, 16); m--;) { int u = g.raw(n), v = g.raw(n); if (u != v) b.add_edge(u, v); } b.build();
    suisen::BlockCutForest f(b); const auto& c = f; for (int i = 0; i < f.size(); ++i) { CK(c[i] == f[i]); for (int j : c[i]) { auto& o = c[j]; CK(std::count(o.begin(), o.end(), i) == 1); CK(c.is_articulation_point(i) != c.is_articulation_point(j)); if (c.is_articulation_point(i)) g.nontrivial(); } }
    auto s = b.components(); for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.size(); ++j) { CK((s[i] == s[j]) == (i == j)); CK((s[i] != s[j]) == (i != j)); EQ(s[i].vertex_num(), (int)s[i].vertex_set().size()); EQ(s[i].edge_num(), (int)s[i].edge_set().size()); }
}
