#include "common.hpp"
#include "library/datastructure/permutation_tree.hpp"
using namespace hv;
// permutation with structure: recursive substitution of small permutations
static std::vector<int> sub(Gen& g, int n) {
    if (n <= 1) return std::vector<int>(n, 0); if (g.raw(4) == 0) return g.perm(n);
    int k = std::min<int>(n, 2 + g.raw(4)); std::vector<int> sz(k, 1); for (int i = n - k; i--;) sz[g.raw(k)]++; auto o = g.perm(k); if (g.coin()) { std::iota(o.begin(), o.end(), 0); if (g.coin()) std::reverse(o.begin(), o.end()); }
    std::vector<int> off(k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (o[j] < o[i]) off[i] += sz[j]; std::vector<int> r; for (int i = 0; i < k; ++i) for (int x : sub(g, sz[i])) r.push_back(x + off[i]); return r;
}
PBT(permutation_tree, 12000, "both a join node and a prime node occur", 8, 12) {
    int n = g.size(0, 24); auto p = sub(g, n); g.note("p", p); suisen::PermutationTree t(p); if (n == 0) { EQ(t.length(), 0); CK(t.empty()); return; }
    std::vector<std::pair<int, int>> iv; for (int l = 0; l < n; ++l) { int lo = n, hi = -1; for (int r = l; r < n; ++r) { lo = std::min(lo, p[r]), hi = std::max(hi, p[r]); if (hi - lo == r - l) iv.emplace_back(l, r + 1); } }
    std::set<std::pair<int, int>> all(iv.begin(), iv.end()), strong; for (auto [a, b] : iv) { bool ok = true; for (auto [c, d] : iv) if ((a < c && c < b && b < d) || (c < a && a < d && d < b)) { ok = false; break; } if (ok) strong.insert({ a, b }); }
    std::set<std::pair<int, int>> got; bool jn = false, pr = false; std::vector<std::vector<char>> pic;
    std::function<void(const suisen::PermutationTree&)> rec = [&](const suisen::PermutationTree& u) {
        int l = u.begin_index(), r = u.end_index(); CK(0 <= l && l < r && r <= n); CK(got.insert({ l, r }).second); EQ(u.length(), r - l); EQ(u.min_index(), l); EQ(u.max_index(), r - 1); int lo = *std::min_element(p.begin() + l, p.begin() + r); EQ(u.begin_value(), lo); EQ(u.end_value(), lo + r - l); EQ(u.min_value(), lo); EQ(u.max_value(), lo + r - l - 1);
        EQ(u.get_index_range(), std::make_pair(l, r)); EQ(u.get_value_range(), std::make_pair(lo, lo + r - l)); EQ(u.get_index_range_closed(), std::make_pair(l, r - 1)); EQ(u.get_value_range_closed(), std::make_pair(lo, lo + r - l - 1));
        if (r - l == 1) { CK(u.empty()); return; } CK(u.size() >= 2); int c = l; for (auto& ch : u) { EQ(ch.begin_index(), c); c = ch.end_index(); rec(ch); } EQ(c, r);
        bool join = all.count({ l, u[1].end_index() }); EQ(u.is_join_node(), join); (join ? jn : pr) = true;
    };
    rec(t); EQ(t.length(), n); EQ(got, strong); if (jn && pr) g.nontrivial(); std::ostringstream o; o << t; CK(!o.str().empty());
}
