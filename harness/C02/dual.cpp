#include "common.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
using namespace hv;
using D = suisen::DualSegmentTree<Z, A, a_app, a_comp, a_id>;
PBT(dual, 40000, "at least two overlapping applications, then reads", 8, 22) {
    int n = g.size(0, 40); std::vector<Z> a(n); bool fill = g.coin(); Z f0 = g.range(0, 9);
    for (auto& x : a) x = fill ? f0 : Z(g.range(0, 9));
    D t = fill ? D(n, f0) : D(a); g.note("n=", n);
    std::vector<int> cover(n);
    for (int q = g.size(1, 30); q--;) {
        if (g.raw(3)) { auto [l, r] = g.seg(n); A f = gen_aff(g); g.note("apply", l, r, f); t.apply(l, r, f); for (int i = l; i < r; ++i) { a[i] = a_app(f, a[i]); if (++cover[i] > 1) g.nontrivial(); } }
        else if (n) { int i = g.raw(n); g.note("get", i); EQ(g.coin() ? t.get(i) : t[i], a[i]); }
    }
    for (int i = 0; i < n; ++i) EQ(t[i], a[i]);
}
static i64 addmap(i64 f, i64 x) { return x + f; }
PBT(commutative_dual, 30000, "at least two overlapping applications, then reads", 8, 12) {
    using T = suisen::CommutativeDualSegmentTree<i64, i64, addmap, add_ll, zero_ll>;
    int n = g.size(0, 40); std::vector<i64> a = g.vec<i64>(n, -9, 9); T t(a); std::vector<int> cover(n); g.note("n=", n);
    for (int q = g.size(1, 30); q--;) {
        if (g.raw(3)) { auto [l, r] = g.seg(n); i64 f = g.range(-9, 9); g.note("apply", l, r, f); t.apply(l, r, f); for (int i = l; i < r; ++i) { a[i] += f; if (++cover[i] > 1) g.nontrivial(); } }
        else if (n) { int i = g.raw(n); EQ(g.coin() ? t.get(i) : t[i], a[i]); }
    }
    for (int i = 0; i < n; ++i) EQ(t[i], a[i]);
}
