#include "large.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
using namespace hv;
// prefix words: fold(l, r) = pre[r] - pre[l] * B^(r-l)
struct Pre {
    std::vector<W> p;
    void build(const std::vector<W>& a) { p.assign(a.size() + 1, W{}); for (size_t i = 0; i < a.size(); ++i) p[i + 1] = w_op(p[i], a[i]); }
    W fold(int l, int r, const std::vector<W>& bp) const { W s; s.p = bp[r - l].p; s.h = p[r].h - p[l].h * s.p; return s; }
};
static std::vector<W> powers(int n) { std::vector<W> b(n + 1); u64 q = w_of(0).p; for (int i = 1; i <= n; ++i) b[i].p = b[i - 1].p * q; return b; }
static W ones(int l, int r) { W res, b = w_of(1); for (int k = r - l; k > 0; k >>= 1, b = w_op(b, b)) if (k & 1) res = w_op(res, b); return res; }
PBT(segment_tree_large, 4, "every case: more than 2^16 elements, updates between query rounds") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto bp = powers(n);
    std::vector<W> a(n); for (auto& x : a) x = w_of(b.raw(1000)); suisen::SegmentTree<W, w_op, w_e> t(a); Pre p;
    for (int round = 0; round < 4; ++round) {
        for (int k = 0; k < 8000; ++k) { int i = b.raw(8) ? b.in(0, n - 1) : b.coin() ? b.in(0, 3) : n - 1 - b.in(0, 3); a[i] = w_of(b.raw(1000)); if (b.coin()) t.set(i, a[i]); else t[i] = a[i]; }
        p.build(a);
        for (int k = 0; k < 3000; ++k) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), p.fold(l, r, bp)); int m = b.in(0, n); EQ(t.prefix_prod(m), p.fold(0, m, bp)); EQ(t.suffix_prod(m), p.fold(m, n, bp)); }
        EQ(t.all_prod(), p.fold(0, n, bp));
    }
    for (int i = 0; i < n; ++i) EQ(t.get(i), a[i]);
}
PBT(search_large, 4, "every case: more than 2^16 elements, searches ending strictly inside") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); std::vector<i64> a = b.vec(n, 0, 1000000000); suisen::SegmentTree<i64, add_ll, zero_ll> t(a); std::vector<i64> pre(n + 1);
    for (int round = 0; round < 3; ++round) {
        for (int k = 0; k < 3000; ++k) { int i = b.in(0, n - 1); i64 x = b.range(0, 1000000000); t[i] += x; a[i] += x; }
        for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + a[i];
        for (int k = 0; k < 5000; ++k) {
            i64 lim = b.coin() ? b.range(0, pre[n]) : b.range(0, pre[n] / 1000); int l = b.in(0, n); auto f = [&](i64 s) { return s <= lim; };
            EQ(t.max_right(l, f), int(std::upper_bound(pre.begin(), pre.end(), pre[l] + lim) - pre.begin()) - 1);
            EQ(t.min_left(l, f), int(std::lower_bound(pre.begin(), pre.end(), pre[l] - lim) - pre.begin()));
        }
    }
}
PBT(grid_large, 4, "every case: more than 10^5 cells") {
    bool flat = g.coin(); int h = flat ? 3 : 330, w = flat ? 40000 : 320; Bulk b(g); g.nontrivial();
    std::vector<std::vector<i64>> a(h, std::vector<i64>(w)); for (auto& r : a) for (auto& x : r) x = b.range(-1000000000, 1000000000);
    suisen::SegmentTree2D<i64, add_ll, zero_ll> t(a);
    for (int round = 0; round < 3; ++round) {
        for (int k = 0; k < 3000; ++k) { int i = b.in(0, h - 1), j = b.in(0, w - 1); i64 v = b.range(-1000000000, 1000000000); t.set(i, j, v); a[i][j] = v; }
        std::vector<std::vector<i64>> p(h + 1, std::vector<i64>(w + 1)); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) p[i + 1][j + 1] = p[i][j + 1] + p[i + 1][j] - p[i][j] + a[i][j];
        for (int k = 0; k < 2000; ++k) { auto [u, d] = b.seg(h); auto [l, r] = b.seg(w); EQ(t(u, d, l, r), p[d][r] - p[u][r] - p[d][l] + p[u][l]); int i = b.in(0, h - 1), j = b.in(0, w - 1); EQ(t.get(i, j), a[i][j]); }
    }
}
PBT(sparse_points_large, 2, "every case: 20000 points, folds over thousands of them") {
    int n = 20000; Bulk b(g); g.nontrivial(); int lim = g.pick<int>({ 150, 1000000000 }); std::vector<std::pair<int, int>> ps(n); for (auto& [x, y] : ps) x = b.in(-lim, lim), y = b.in(-lim, lim);
    suisen::SegmentTree2DSparse<i64, add_ll, zero_ll> t(n); suisen::CompressedSegmentTree<i64, add_ll, zero_ll, 2, int> c;
    for (auto [x, y] : ps) t.add_point(x, y), c.add_point({ x, y });
    t.build(); c.build(); auto u = uniq(ps); std::vector<i64> val(u.size());
    for (int k = 0; k < 20000; ++k) { int i = b.in(0, int(u.size()) - 1); i64 v = b.range(0, 1000000000); if (b.coin()) t.set(u[i].first, u[i].second, v), c.set({ u[i].first, u[i].second }, v), val[i] = v; else t[u[i]] += v, c.apply({ u[i].first, u[i].second }, v), val[i] += v; }
    for (int k = 0; k < 150; ++k) {
        int l = b.in(-lim - 1, lim + 1), r = b.in(-lim - 1, lim + 1), d = b.in(-lim - 1, lim + 1), e = b.in(-lim - 1, lim + 1); if (l > r) std::swap(l, r); if (d > e) std::swap(d, e);
        i64 s = 0; for (size_t i = 0; i < u.size(); ++i) if (l <= u[i].first && u[i].first < r && d <= u[i].second && u[i].second < e) s += val[i];
        EQ(t.prod(l, r, d, e), s); EQ(c.query({ std::pair<int, int>{ l, r }, std::pair<int, int>{ d, e } }), s);
    }
    i64 s = 0; for (auto x : val) s += x; EQ(t.all_prod(), s);
    for (size_t i = 0; i < u.size(); ++i) { EQ(t.get(u[i].first, u[i].second), val[i]); EQ(c.get({ u[i].first, u[i].second }), val[i]); }
}
PBT(sparse_large, 4, "every case: tens of thousands of touched positions") {
    using T = suisen::SparseSegmentTree<int, W, w_op, w_e, ones>; int n = big_n(g); Bulk b(g); g.nontrivial(); auto bp = powers(n); std::vector<W> a(n, w_of(1)); T t(n); Pre p;
    for (int round = 0; round < 3; ++round) {
        for (int k = 0; k < 12000; ++k) { int i = round == 0 ? std::min(n - 1, k) : b.in(0, n - 1); a[i] = w_of(b.raw(1000)); t.set(i, a[i]); }
        p.build(a); for (int k = 0; k < 1500; ++k) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), p.fold(l, r, bp)); int i = b.in(0, n - 1); EQ(t.get(i), a[i]); }
        EQ(t.prod_all(), p.fold(0, n, bp));
    }
}
PBT(compressed_large, 4, "every case: more than 50000 registered points") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); std::vector<i64> xs = b.vec(n, -1000000000000000000LL, 1000000000000000000LL); suisen::CompressedSegmentTree<W, w_op, w_e, 1, i64> t; for (i64 x : xs) t.add_point(x);
    t.build(); xs = uniq(xs); n = xs.size(); std::vector<W> a(n); auto bp = powers(n); for (int i = 0; i < n; ++i) { a[i] = w_of(b.raw(1000)); t.set(xs[i], a[i]); }
    Pre p; p.build(a);
    for (int k = 0; k < 4000; ++k) { auto [l, r] = b.seg(n); i64 L = l < n ? xs[l] - (b.coin() && l && xs[l - 1] < xs[l] - 1) : xs[n - 1] + 1, R = r < n ? xs[r] : xs[n - 1] + 1; EQ(t.query(L, R), p.fold(l, r, bp)); int i = b.in(0, n - 1); EQ(t.get(xs[i]), a[i]); }
}
