#include "common.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
using namespace hv;
using LT = suisen::LazySegmentTree<S, s_op, s_e, A, s_map, a_comp, a_id>;
static S fold(const std::vector<Z>& a, int l, int r) { S s; for (int i = l; i < r; ++i) s = s_op(s, s_of(a[i])); return s; }
PBT(history, 40000, "at least two overlapping range applications before a range fold", 8, 19) {
    int n = g.size(0, 40); std::vector<Z> a(n); for (auto& x : a) x = g.range(0, 9);
    std::vector<S> init(n); for (int i = 0; i < n; ++i) init[i] = s_of(a[i]);
    LT t(init); int upd = 0; if (n == 0 && g.coin()) t = g.coin() ? LT() : LT(0);
    g.note("n=", n);
    for (int q = g.size(1, 30); q--;) switch (g.raw(8)) {
        case 0: case 1: case 2: { auto [l, r] = g.seg(n); A f = gen_aff(g); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = a_app(f, a[i]); if (l < r) ++upd; g.note("apply", l, r, f); break; }
        case 3: if (n) { int i = g.raw(n); A f = gen_aff(g); t.apply(i, f); a[i] = a_app(f, a[i]); g.note("apply", i, f); } break;
        case 4: if (n) { int i = g.raw(n); Z x = g.range(0, 99); if (g.coin()) t.set(i, s_of(x)); else t[i] = s_of(x); a[i] = x; g.note("set", i); } break;
        case 5: if (n) { int i = g.raw(n); EQ(t.get(i), s_of(a[i])); EQ(S(t[i]), s_of(a[i])); } break;
        case 6: { int r = g.raw(n + 1); EQ(t.prefix_prod(r), fold(a, 0, r)); EQ(t.suffix_prod(r), fold(a, r, n)); EQ(t.all_prod(), fold(a, 0, n)); break; }
        default: { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(g.coin() ? t.prod(l, r) : t(l, r), fold(a, l, r)); if (upd > 1 && l < r) g.nontrivial(); }
    }
    for (int i = 0; i < n; ++i) EQ(t.get(i), s_of(a[i]));
}
struct SL { i64 s, c; bool operator==(const SL& o) const { return s == o.s && c == o.c; } };
static SL slop(SL a, SL b) { return { a.s + b.s, a.c + b.c }; }
static SL sle() { return { 0, 0 }; }
static SL slmap(i64 f, SL x) { return { x.s + f * x.c, x.c }; }
static bool le10(SL x) { return x.s <= 10; }
PBT(search, 40000, "search after a range application, with the answer strictly inside", 8, 12) {
    using T = suisen::LazySegmentTree<SL, slop, sle, i64, slmap, add_ll, zero_ll>;
    int n = g.size(0, 40); std::vector<i64> a = g.vec<i64>(n, 0, 3); std::vector<SL> b(n); for (int i = 0; i < n; ++i) b[i] = { a[i], 1 };
    T t(b); bool upd = false; g.note("a=", a);
    for (int q = g.size(1, 15); q--;) {
        if (g.coin()) { auto [l, r] = g.seg(n); i64 f = g.range(0, 4); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] += f; if (l < r) upd = true; g.note("apply", l, r, f); }
        else {
            i64 lim = g.range(0, 80); bool fixed = g.raw(4) == 0; if (fixed) lim = 10; auto f = [&](SL x) { return x.s <= lim; };
            int l = g.raw(n + 1), r = l; i64 s = 0; while (r < n && s + a[r] <= lim) s += a[r++];
            g.note("max_right", l, lim); EQ(fixed ? t.max_right<le10>(l) : t.max_right(l, f), r); if (upd && 0 < r && r < n) g.nontrivial();
            r = g.raw(n + 1), l = r; s = 0; while (l > 0 && s + a[l - 1] <= lim) s += a[--l];
            g.note("min_left", r, lim); EQ(fixed ? t.min_left<le10>(r) : t.min_left(r, f), l);
        }
    }
    for (int i = 0; i < n; ++i) EQ(t.get(i).s, a[i]);
}
