#include "common.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
using namespace hv;
// initial contents: the letter w_of(1) everywhere
static W letters(i64 l, i64 r) { W res, b = w_of(1); for (i64 k = r - l; k > 0; k >>= 1, b = w_op(b, b)) if (k & 1) res = w_op(res, b); return res; }
static W letters_i(int l, int r) { return letters(l, r); }
static u64 add_u(u64 a, u64 b) { return a + b; }
static u64 zero_u() { return 0; }
static u64 tri(i64 x) { u128 t = u128(x) * u128(x > 0 ? x - 1 : 0) / 2; return u64(t); } // sum of 0..x-1 mod 2^64
static u64 ramp(i64 l, i64 r) { return r <= l ? 0 : tri(r) - tri(l); }

PBT(sparse_words, 12000, "a set followed by a fold over a range that holds it and untouched positions", 8, 12) {
    using T = suisen::SparseSegmentTree<int, W, w_op, w_e, letters_i>;
    int n = g.size(0, 40);
    T t(n); std::vector<W> a(n, w_of(1));
    std::set<int> touched;
    g.note("n=", n);
    for (int k = g.size(1, 25); k--;) switch (g.raw(4)) {
        case 0: case 1: if (n) { int i = g.raw(n); W x = w_of(g.raw(9)); if (g.coin()) t.set(i, x), a[i] = x; else { t.apply_fun(i, [&](W y) { return w_op(y, x); }); a[i] = w_op(a[i], x); } touched.insert(i); g.note("set", i); } break;
        case 2: { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(g.coin() ? t(l, r) : t.prod(l, r), w_fold(a, l, r)); auto it = touched.lower_bound(l); if (it != touched.end() && *it < r && r - l > 1) g.nontrivial(); } break;
        default: EQ(t.prod_all(), w_fold(a, 0, n)); if (n) { int i = g.raw(n); EQ(t.get(i), a[i]); }
    }
}
PBT(sparse_huge, 3000, "domain larger than 2^31 with at least three touched positions", 8, 12) {
    using T = suisen::SparseSegmentTree<i64, u64, add_u, zero_u, ramp>;
    i64 n = g.coin() ? g.edgy(1, 1000000000000000000LL) : g.range(1, 1000);
    T t(n); std::map<i64, u64> m; std::vector<i64> pos;
    for (int k = g.size(1, 20); k--;) {
        i64 i = pos.size() && g.coin() ? std::min(n - 1, std::max<i64>(0, g.pick(pos) + g.range(-2, 2))) : g.edgy(0, n - 1);
        switch (g.raw(3)) {
            case 0: { u64 x = g.raw(1000); t.set(i, x); m[i] = x; pos.push_back(i); break; }
            case 1: EQ(t.get(i), m.count(i) ? m[i] : u64(i)); break;
            default: { i64 j = pos.size() && g.coin() ? g.pick(pos) : g.edgy(0, n); i64 l = std::min(i, j), r = std::max(i, j); if (r < n && g.coin()) ++r; u64 s = ramp(l, r); for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) s += it->second - u64(it->first); EQ(t.prod(l, r), s); }
        }
    }
    if (n > (1LL << 31) && m.size() >= 3) g.nontrivial();
    u64 s = ramp(0, n); for (auto& [i, v] : m) s += v - u64(i);
    EQ(t.prod_all(), s);
}
PBT(sparse_default_two_trees, 8000, "two trees of one type updated alternately", 8, 12) {
    using T = suisen::SparseSegmentTree<int, W, w_op, w_e>;
    int n[2] = { g.size(1, 20), g.size(1, 20) }; T t[2] = { T(n[0]), T(n[1]) }; std::vector<W> a[2] = { std::vector<W>(n[0]), std::vector<W>(n[1]) };
    bool u[2] = {};
    for (int k = g.size(1, 30); k--;) { int b = g.raw(2); if (g.coin()) { int i = g.raw(n[b]); W x = w_of(g.raw(9)); t[b].set(i, x); a[b][i] = x; u[b] = true; } else { auto [l, r] = g.seg(n[b]); EQ(t[b](l, r), w_fold(a[b], l, r)); } }
    if (u[0] && u[1]) g.nontrivial();
    for (int b = 0; b < 2; ++b) EQ(t[b].prod_all(), w_fold(a[b], 0, n[b]));
}
PBT(compressed_1d, 12000, "at least two registered points and a set before a fold", 8, 12) {
    using T = suisen::CompressedSegmentTree<W, w_op, w_e, 1, i64>;
    T t; std::map<i64, W> m; int k = g.size(1, 25); i64 lim = g.pick<i64>({ 8, 60, 1000000000000LL });
    for (int i = 0; i < k; ++i) { i64 x = g.range(-lim, lim); t.add_point(x); m[x] = W{}; }
    t.build(); std::vector<i64> xs; for (auto& [x, w] : m) xs.push_back(x);
    bool upd = false;
    for (int q = g.size(1, 30); q--;) switch (g.raw(3)) {
        case 0: { i64 x = g.pick(xs); W v = w_of(g.raw(9)); t.set(x, v); m[x] = v; upd = true; g.note("set", x); break; }
        case 1: { i64 l = g.coin() ? g.pick(xs) : g.range(-lim - 2, lim + 2), r = g.coin() ? g.pick(xs) + 1 : g.range(-lim - 2, lim + 2); if (l > r) std::swap(l, r); W s; for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) s = w_op(s, it->second); g.note("query", l, r); EQ(t.query(l, r), s); if (upd && m.size() > 1) g.nontrivial(); break; }
        default: { i64 x = g.pick(xs); EQ(t.get(x), m[x]); }
    }
}
template <size_t K> static void kd(Gen& g) {
    using T = suisen::CompressedSegmentTree<i64, add_ll, zero_ll, K, int>;
    T t; using Pt = std::array<int, K>; std::map<Pt, i64> m; int lim = g.pick<int>({ 2, 5, 100 });
    for (int k = g.size(1, 14); k--;) { Pt p; for (auto& x : p) x = g.in(-lim, lim); t.add_point(p); m[p] = 0; }
    t.build(); std::vector<Pt> ps; for (auto& [p, v] : m) ps.push_back(p);
    int upd = 0;
    for (int q = g.size(1, 25); q--;) switch (g.raw(5)) {
        case 0: { auto p = g.pick(ps); i64 v = g.range(1, 9); t.set(p, v); m[p] = v; ++upd; g.note("set", p, v); break; }
        case 1: { auto p = g.pick(ps); i64 v = g.range(1, 9); t.apply(p, v); m[p] += v; ++upd; g.note("apply", p, v); break; }
        case 2: { auto p = g.pick(ps); EQ(t.get(p), m[p]); break; }
        default: { typename T::cube_type c; for (auto& [l, r] : c) { l = g.in(-lim - 1, lim + 1), r = g.in(-lim - 1, lim + 1); if (l > r) std::swap(l, r); } i64 s = 0; for (auto& [p, v] : m) { bool in = true; for (size_t d = 0; d < K; ++d) in = in && c[d].first <= p[d] && p[d] < c[d].second; if (in) s += v; } g.note("query", c); EQ(t.query(c), s); if (upd > 1 && s) g.nontrivial(); }
    }
}
PBT(compressed_2d, 8000, "two or more updates and a query with non-zero answer", 8, 12) { kd<2>(g); }
PBT(compressed_3d, 4000, "two or more updates and a query with non-zero answer", 8, 12) { kd<3>(g); }

// domains that fill the index type
template <class I> static u64 ramp_of(I l, I r) { return ramp((i64)l, (i64)r); }
template <class I> static void sparse_full(Gen& g) {
    using T = suisen::SparseSegmentTree<I, u64, add_u, zero_u, ramp_of<I>>; const i64 M = std::numeric_limits<I>::max();
    i64 n = g.coin() ? M - (i64)g.raw(3) : M - (i64)g.raw(M / 2); T t(n); std::map<i64, u64> m; std::vector<i64> pos; g.note("n", n);
    for (int k = g.size(1, 12); k--;) {
        i64 i = pos.size() && g.coin() ? g.pick(pos) : g.chance(1, 3) ? n - 1 - (i64)g.raw(3) : (i64)g.raw(n);
        switch (g.raw(3)) {
            case 0: { u64 x = g.raw(1000); g.note("set", i, x); t.set(i, x); m[i] = x; pos.push_back(i); break; }
            case 1: g.note("get", i); EQ(t.get(i), m.count(i) ? m[i] : u64(i)); break;
            default: { i64 j = pos.size() && g.coin() ? g.pick(pos) : g.coin() ? n : (i64)g.raw(n); i64 l = std::min(i, j), r = std::max(i, j); if (r < n && g.coin()) ++r; g.note("prod", l, r); u64 s = ramp(l, r); for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) s += it->second - u64(it->first); EQ(t.prod(l, r), s); }
        }
    }
    u64 s = ramp(0, n); for (auto& [i, v] : m) s += v - u64(i);
    EQ(t.prod_all(), s); if (m.size() >= 2) g.nontrivial();
}
PBT(sparse_full_domain, 2000, "at least two touched positions", 8, 12) { switch (g.raw(4)) { case 0: sparse_full<int>(g); break; case 1: sparse_full<unsigned>(g); break; case 2: sparse_full<i64>(g); break; default: sparse_full<short>(g); } }
