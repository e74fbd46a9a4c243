#include "common.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
using namespace hv;
// array initially holds value i at index i
static Z Rpow(i64 n) { Z r; r.v = pw(912559, u64(n)); return r; }
static S initS(int l, int r) { S s; for (int i = l; i < r; ++i) s = s_op(s, s_of(Z(i % 7))); return s; }
static S mapI(A f, S x, int, int) { return s_map(f, x); }
PBT(history, 20000, "at least two range applications before a range fold over part of the domain", 8, 14) {
    using T = suisen::SparseLazySegmentTree<int, S, s_op, s_e, A, mapI, a_comp, a_id, initS>;
    int n = g.size(1, 33); std::vector<Z> a(n); for (int i = 0; i < n; ++i) a[i] = i % 7;
    T t(n); int upd = 0; g.note("n=", n);
    auto fold = [&](int l, int r) { S s; for (int i = l; i < r; ++i) s = s_op(s, s_of(a[i])); return s; };
    for (int q = g.size(1, 25); q--;) switch (g.raw(9)) {
        case 0: case 1: case 2: { auto [l, r] = g.seg(n); A f = gen_aff(g); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = a_app(f, a[i]); if (l < r) ++upd; g.note("apply", l, r, f); break; }
        case 3: { int i = g.raw(n); A f = gen_aff(g); t.apply(i, f); a[i] = a_app(f, a[i]); g.note("apply", i, f); break; }
        case 4: { int i = g.raw(n); Z x = g.range(0, 99); if (g.coin()) t.set(i, s_of(x)); else t.apply_fun(i, [&](S) { return s_of(x); }); a[i] = x; g.note("set", i); break; }
        case 5: { A f = gen_aff(g); t.apply_all(f); for (auto& x : a) x = a_app(f, x); g.note("all", f); break; }
        case 6: { int i = g.raw(n); EQ(t.get(i), s_of(a[i])); break; }
        case 7: EQ(t.prod_all(), fold(0, n)); break;
        default: { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(g.coin() ? t.prod(l, r) : t(l, r), fold(l, r)); if (upd > 1 && l < r && r - l < n) g.nontrivial(); }
    }
    for (int i = 0; i < n; ++i) EQ(t.get(i), s_of(a[i]));
}
// huge domain: sums with position-aware action (adds f per element, using the length passed in)
static u64 addu(u64 a, u64 b) { return a + b; }
static u64 zu() { return 0; }
static u64 mapu(u64 f, u64 x, i64 l, i64 r) { return x + f * u64(r - l); }
static u64 tri(i64 x) { return u64(u128(x) * u128(x > 0 ? x - 1 : 0) / 2); }
static u64 rampu(i64 l, i64 r) { return r <= l ? 0 : tri(r) - tri(l); }
PBT(huge, 6000, "domain beyond 2^31 and two or more range additions", 8, 12) {
    using T = suisen::SparseLazySegmentTree<i64, u64, addu, zu, u64, mapu, addu, zu, rampu>;
    i64 n = g.coin() ? g.edgy(1, 1000000000000000000LL) : g.range(1, 100); T t(n);
    std::vector<std::tuple<i64, i64, u64>> ops; std::vector<i64> pos{ 0, n };
    for (int q = g.size(1, 15); q--;) {
        i64 l = g.coin() ? g.pick(pos) : g.edgy(0, n), r = g.coin() ? g.pick(pos) : g.edgy(0, n); if (l > r) std::swap(l, r);
        if (g.coin()) { u64 f = g.raw(1000); t.apply(l, r, f); ops.emplace_back(l, r, f); pos.push_back(l), pos.push_back(r); }
        else if (g.coin() || l >= n) { u64 s = rampu(l, r); for (auto& [a, b, f] : ops) { i64 x = std::max(a, l), y = std::min(b, r); if (x < y) s += f * u64(y - x); } EQ(t.prod(l, r), s); }
        else { u64 s = u64(l); for (auto& [a, b, f] : ops) if (a <= l && l < b) s += f; EQ(t.get(l), s); }
    }
    if (n > (1LL << 31) && ops.size() > 1) g.nontrivial();
}

// domains that fill the index type
template <class I> static u64 mapu_of(u64 f, u64 x, I l, I r) { return x + f * (u64(r) - u64(l)); }
template <class I> static u64 rampu_of(I l, I r) { return rampu((i64)l, (i64)r); }
template <class I> static void lazy_full(Gen& g) {
    using T = suisen::SparseLazySegmentTree<I, u64, addu, zu, u64, mapu_of<I>, addu, zu, rampu_of<I>>; const i64 M = std::numeric_limits<I>::max();
    i64 n = g.coin() ? M - (i64)g.raw(3) : M - (i64)g.raw(M / 2); T t(n); g.note("n", n);
    std::vector<std::tuple<i64, i64, u64>> ops; std::vector<i64> pos{ 0, n, n - 1 }; int wide = 0;
    for (int q = g.size(1, 12); q--;) {
        auto gp = [&] { return g.coin() ? g.pick(pos) : (i64)g.raw(n); }; i64 l = gp(), r = gp(); if (l > r) std::swap(l, r);
        switch (g.raw(4)) {
            case 0: { u64 f = g.raw(1000); g.note("apply", l, r, f); t.apply((I)l, (I)r, f); ops.emplace_back(l, r, f); pos.push_back(l), pos.push_back(r); ++wide; break; }
            case 1: { if (l >= n) break; u64 f = g.raw(1000); g.note("point", l, f); t.apply((I)l, f); ops.emplace_back(l, l + 1, f); pos.push_back(l); break; }
            case 2: { g.note("prod", l, r); u64 s = rampu(l, r); for (auto& [a, b, f] : ops) { i64 x = std::max(a, l), y = std::min(b, r); if (x < y) s += f * u64(y - x); } EQ(t.prod(l, r), s); break; }
            default: { if (l >= n) break; g.note("get", l); u64 s = u64(l); for (auto& [a, b, f] : ops) if (a <= l && l < b) s += f; EQ(t.get(l), s); }
        }
    }
    if (wide > 1) g.nontrivial();
}
PBT(lazy_full_domain, 2000, "two or more range additions", 8, 12) { switch (g.raw(4)) { case 0: lazy_full<int>(g); break; case 1: lazy_full<unsigned>(g); break; case 2: lazy_full<i64>(g); break; default: lazy_full<short>(g); } }
