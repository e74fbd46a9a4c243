#include "common.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/datastructure/segment_tree/segment_tree_beats.hpp"
using namespace hv;
using T = suisen::RangeChMinMaxAddRangeSum<i64>;
static bool sum_le(T::DataType d) { return d.get_sum() <= 20; }
PBT(beats_search_by_function, 8000, "the search stops strictly inside after an update", 8, 12) {
    int n = g.size(1, 33); auto a = g.vec<i64>(n, 0, 9); T t(a);
    for (int q = g.size(1, 12); q--;) {
        auto [l, r] = g.seg(n); i64 v = g.range(0, 9); switch (g.raw(3)) { case 0: t.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); break; case 1: t.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); break; default: t.add(l, r, 1); for (int i = l; i < r; ++i) a[i] += 1; }
        int p = g.raw(n + 1), e = p; i64 s = 0; while (e < n && s + a[e] <= 20) s += a[e++]; EQ(t.max_right<sum_le>(p), e); if (e < n) g.nontrivial();
        s = 0; e = p; while (e > 0 && s + a[e - 1] <= 20) s += a[--e]; EQ(t.min_left<sum_le>(p), e);
    }
}
// SegmentTreeBeats used directly: range "take the bitwise and / or" with range max, which needs the fail path
struct BD { unsigned o, a; unsigned m; int n; bool fail; };
struct BF { unsigned a, o; };
static BD b_op(BD x, BD y) { if (!x.n) return y; if (!y.n) return x; return { x.o | y.o, x.a & y.a, std::max(x.m, y.m), x.n + y.n, false }; }
static BD b_e() { return { 0u, ~0u, 0u, 0, false }; }
static BD b_map(BF f, BD x) { if (!x.n) return x; // every element agrees on the bits that change: apply exactly; otherwise fail
    unsigned ch = ~f.a | f.o, mixed = (x.o ^ x.a) & ch; if (mixed && x.n > 1) { x.fail = true; return x; } auto ap = [&](unsigned v) { return (v & f.a) | f.o; }; return { ap(x.o), ap(x.a), (x.m & f.a) | f.o, x.n, false }; }
static BF b_comp(BF f, BF g) { return { f.a & g.a, (g.o & f.a) | f.o }; }
static BF b_id() { return { ~0u, 0u }; }
PBT(beats_and_or_max, 8000, "at least three overlapping bit updates", 8, 12) {
    using B = suisen::SegmentTreeBeats<BD, b_op, b_e, BF, b_map, b_comp, b_id>;
    int n = g.size(1, 40); std::vector<unsigned> a(n); int bits = g.in(1, 6); for (auto& x : a) x = g.raw(1u << bits); std::vector<BD> in; for (auto x : a) in.push_back({ x, x, x, 1, false });
    B t(in); int upd = 0; g.note("a", a);
    for (int q = g.size(1, 25); q--;) {
        auto [l, r] = g.seg(n); unsigned v = g.raw(1u << bits); int k = g.raw(4); g.note("op", k, l, r, v);
        if (k == 0) { t.apply(l, r, BF{ v, 0u }); for (int i = l; i < r; ++i) a[i] &= v; ++upd; }
        else if (k == 1) { t.apply(l, r, BF{ ~0u, v }); for (int i = l; i < r; ++i) a[i] |= v; ++upd; }
        else if (k == 2) { unsigned m = 0; for (int i = l; i < r; ++i) m = std::max(m, a[i]); EQ(t.prod(l, r).m, m); }
        else { int i = g.raw(n); if (g.coin()) EQ(t.get(i).m, a[i]); else { a[i] = v; t.set(i, BD{ v, v, v, 1, false }); } }
        if (upd > 2) g.nontrivial();
    }
    unsigned m = 0; for (auto x : a) m = std::max(m, x); EQ(t.all_prod().m, m); for (int i = 0; i < n; ++i) EQ(t.get(i).m, a[i]);
}
