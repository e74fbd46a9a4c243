#include "common.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
using namespace hv;
using ST = suisen::SegmentTree<W, w_op, w_e>;
using SM = suisen::SegmentTree<i64, add_ll, zero_ll>;

PBT(word_history, 4000, "history with at least one update followed by a non-empty range fold", 8, 12) {
    int n = g.size(0, 70);
    std::vector<W> a(n);
    ST t;
    int how = g.raw(3);
    if (how == 0) t = ST(n), g.label("ctor_n");
    else { for (auto& x : a) x = w_of(g.raw(50)); t = ST(a); if (how == 2 && n) { for (auto& x : a) x = w_of(g.raw(50)); t.build(a); g.label("rebuild"); } }
    g.note("n=", n);
    int q = g.size(1, 40); bool upd = false;
    for (int k = 0; k < q; ++k) {
        switch (g.raw(5)) {
            case 0: if (n) { int i = g.raw(n); W x = w_of(g.raw(50)); a[i] = x; g.note("set", i); if (g.coin()) t.set(i, x); else t[i] = x; upd = true; } break;
            case 1: { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(g.coin() ? t.prod(l, r) : t(l, r), w_fold(a, l, r)); if (upd && l < r) g.nontrivial(); } break;
            case 2: { int r = g.raw(n + 1); EQ(t.prefix_prod(r), w_fold(a, 0, r)); EQ(t.suffix_prod(r), w_fold(a, r, n)); } break;
            case 3: EQ(t.all_prod(), w_fold(a, 0, n)); break;
            case 4: if (n) { int i = g.raw(n); EQ(t.get(i), a[i]); EQ(W(t[i]), a[i]); } break;
        }
    }
    for (int i = 0; i < n; ++i) EQ(t.get(i), a[i]);
    EQ(t.all_prod(), w_fold(a, 0, n));
}
PBT(search, 4000, "binary search whose answer is strictly inside the array", 8, 12) {
    int n = g.size(0, 70);
    std::vector<i64> a = g.vec<i64>(n, 0, 5);
    SM t(a);
    g.note("a=", a);
    for (int k = 0; k < 20; ++k) {
        if (n && g.raw(4) == 0) { int i = g.raw(n); i64 x = g.range(0, 5); switch (g.raw(3)) { case 0: t[i] += x; a[i] += x; break; case 1: t[i] = x; a[i] = x; break; default: ++t[i]; ++a[i]; } }
        i64 lim = g.range(0, 60);
        auto f = [&](i64 s) { return s <= lim; };
        int l = g.raw(n + 1), r = l; i64 s = 0;
        while (r < n && f(s + a[r])) s += a[r++];
        g.note("max_right", l, lim);
        EQ(t.max_right(l, f), r);
        if (0 < r && r < n) g.nontrivial();
        int r2 = g.raw(n + 1), l2 = r2; s = 0;
        while (l2 > 0 && f(s + a[l2 - 1])) s += a[--l2];
        g.note("min_left", r2, lim);
        EQ(t.min_left(r2, f), l2);
    }
}
PBT(search_words, 1500, "order-sensitive predicate with an answer strictly inside the array", 8, 12) {
    // predicate: the folded word is a prefix of a fixed pattern word (monotone in extension)
    int n = g.size(1, 40);
    std::vector<W> a(n); std::vector<int> v = g.vec(n, 0, 1);
    for (int i = 0; i < n; ++i) a[i] = w_of(v[i]);
    ST t(a);
    int l = g.raw(n + 1), m = n - l, k = m ? g.raw(m + 1) : 0;
    // pattern equals a[l..l+k) then differs
    std::set<u64> ok; W s; ok.insert(s.h); for (int i = l; i < l + k; ++i) s = w_op(s, a[i]), ok.insert(s.h);
    g.note("v=", v, "l=", l, "k=", k);
    EQ(t.max_right(l, [&](W x) { return ok.count(x.h) > 0; }), l + k);
    if (k && l + k < n) g.nontrivial();
    int r = g.raw(n + 1), kk = r ? g.raw(r + 1) : 0; std::set<u64> ok2; W s2; ok2.insert(s2.h); for (int i = r - 1; i >= r - kk; --i) s2 = w_op(a[i], s2), ok2.insert(s2.h);
    EQ(t.min_left(r, [&](W x) { return ok2.count(x.h) > 0; }), r - kk);
}
