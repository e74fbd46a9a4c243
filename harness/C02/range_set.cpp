#include "common.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace hv;
using T = suisen::RangeSetRangeComposite<W, w_op, w_e>;
PBT(history, 20000, "two or more overlapping assignments, then a fold cutting a run", 8, 12) {
    int n = g.size(0, 150); std::vector<W> a(n); bool c = g.coin(); W v0 = w_of(g.raw(9));
    for (auto& x : a) x = c ? v0 : w_of(g.raw(9));
    T t = c ? T(n, v0) : T(a); int upd = 0; g.note("n=", n, "ctor_val", c);
    for (int q = g.size(1, 30); q--;) {
        auto [l, r] = g.seg(n);
        if (g.coin()) { W v = w_of(g.raw(9)); g.note("set", l, r); t.set(l, r, v); for (int i = l; i < r; ++i) a[i] = v; upd += l < r; }
        else { g.note("prod", l, r); EQ(t.prod(l, r), w_fold(a, l, r)); if (upd > 1 && l < r) g.nontrivial(); }
    }
    for (int i = 0; i < n; ++i) EQ(t.prod(i, i + 1), a[i]);
}
