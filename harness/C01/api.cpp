#include "common.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
using namespace hv;
static bool le12(i64 x) { return x <= 12; }
// the function-pointer forms of the binary searches
PBT(search_by_function, 8000, "the search stops strictly inside", 8, 12) {
    int n = g.size(0, 50); auto a = g.vec<i64>(n, 0, 6); suisen::SegmentTree<i64, add_ll, zero_ll> t(a);
    for (int q = g.size(1, 12); q--;) {
        if (n && g.raw(3) == 0) { int i = g.raw(n); a[i] = g.range(0, 9); g.note("set", i, a[i]); if (g.coin()) t.set(i, a[i]); else t[i] = a[i]; continue; }
        int p = g.raw(n + 1), r = p; i64 s = 0; while (r < n && s + a[r] <= 12) s += a[r++]; EQ(t.template max_right<le12>(p), r);
        int l = p; s = 0; while (l > 0 && s + a[l - 1] <= 12) s += a[--l]; EQ(t.template min_left<le12>(p), l); if (r < n && l > 0) g.nontrivial();
    }
}
