#include "common.hpp"
#include <iterator>
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
using namespace hv;
// every version is kept together with its own array; operations branch from any version
template <class T> static void pool(Gen& g) {
    static bool first = true;
    if (first || g.chance(1, 3)) T::init_pool(20000); else T::clear_pool();
    first = false;
}
static i64 lim_; static bool le_(i64 x) { return x <= lim_; }
using Q = suisen::PersistentSegmentTree<i64, add_ll, zero_ll>;
using Qw = suisen::PersistentSegmentTree<W, w_op, w_e>;
PBT(segment, 5000, "a non-latest version is branched from or re-read after a later update", 8, 12) {
    pool<Qw>(g); int n = g.size(0, 20); g.note("n=", n);
    std::vector<W> a(n); for (auto& x : a) x = w_of(g.raw(9));
    struct V { Qw t; std::vector<W> a; }; std::vector<V> vs;
    if (g.chance(1, 6)) { vs.push_back({ Qw(n), std::vector<W>(n, w_e()) }); } else vs.push_back({ Qw(a), a });
    for (int q = g.size(1, 25); q--;) {
        int k = g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial();
        switch (g.raw(6)) {
        case 0: case 1: if (n) { int i = g.raw(n); W x = w_of(g.raw(99)); g.note("set", k, i); auto t = v.t.set(i, x); auto b = v.a; b[i] = x; vs.push_back({ t, b }); } break;
        case 2: if (n) { int i = g.raw(n); W x = w_of(g.raw(99)); g.note("apply", k, i); auto t = v.t.apply(i, [&](const W& y) { return w_op(y, x); }); auto b = v.a; b[i] = w_op(b[i], x); vs.push_back({ t, b }); } break;
        case 3: { auto [l, r] = g.seg(n); g.note("prod", k, l, r); EQ(g.coin() ? v.t.prod(l, r) : v.t(l, r), w_fold(v.a, l, r)); } break;
        case 4: { EQ(v.t.prod_all(), w_fold(v.a, 0, n)); } break;
        default: if (n) { int i = g.raw(n); EQ(g.coin() ? v.t.get(i) : v.t[i], v.a[i]); } break;
        }
    }
    for (auto& v : vs) { EQ(v.t.dump(), v.a); std::vector<W> d; v.t.dump(std::back_inserter(d)); EQ(d, v.a); auto [l, r] = g.seg(n); EQ(v.t.prod(l, r), w_fold(v.a, l, r)); for (int i = 0; i < n; ++i) EQ(v.t[i], v.a[i]); }
}
PBT(segment_search, 6000, "the answer is strictly inside the array", 8, 12) {
    pool<Q>(g); int n = g.size(0, 20); std::vector<i64> a = g.vec<i64>(n, 0, 6); Q t(a), t0 = t; auto a0 = a;
    for (int q = g.size(0, 6); q-- && n;) { int i = g.raw(n); a[i] = g.raw(7); t = t.set(i, a[i]); }
    for (int rep = 0; rep < 4; ++rep) {
        bool old = g.coin(); auto& T = old ? t0 : t; auto& b = old ? a0 : a; lim_ = g.raw(std::max(1, 4 * n)); int p = g.raw(n + 1);
        int r = p; for (i64 s = 0; r < n && s + b[r] <= lim_; ++r) s += b[r];
        int l = p; for (i64 s = 0; l > 0 && s + b[l - 1] <= lim_; --l) s += b[l - 1];
        g.note("p", p, "lim", lim_, "a", b); if (n == 0) { continue; }
        EQ(T.max_right(p, le_), r); EQ(T.min_left(p, le_), l); EQ(T.template max_right<le_>(p), r); EQ(T.template min_left<le_>(p), l);
        if (r < n || l > 0) g.nontrivial();
    }
}
using L = suisen::PersistentLazySegmentTree<S, s_op, s_e, A, s_map, a_comp, a_id>;
PBT(lazy, 6000, "a non-latest version is branched from or re-read after a later update", 8, 12) {
    pool<L>(g); int n = g.size(0, 16); std::vector<Z> a(n); for (auto& x : a) x = g.raw(9);
    auto fold = [&](const std::vector<Z>& b, int l, int r) { S s = s_e(); for (int i = l; i < r; ++i) s = s_op(s, s_of(b[i])); return s; };
    std::vector<S> s; for (auto x : a) s.push_back(s_of(x));
    struct V { L t; std::vector<Z> a; }; std::vector<V> vs{ { L(s), a } }; g.note("n=", n, a);
    for (int q = g.size(1, 22); q--;) {
        int k = g.chance(1, 2) ? vs.size() - 1 : g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial();
        switch (g.raw(8)) {
        case 0: case 1: case 2: { auto [l, r] = g.seg(n); A f = gen_aff(g); g.note("apply", k, l, r, f); auto b = v.a; for (int i = l; i < r; ++i) b[i] = a_app(f, b[i]); vs.push_back({ v.t.apply(l, r, f), b }); } break;
        case 3: { A f = gen_aff(g); g.note("apply_all", k, f); auto b = v.a; for (auto& x : b) x = a_app(f, x); vs.push_back({ v.t.apply_all(f), b }); } break;
        case 4: if (n) { int i = g.raw(n); Z x = g.raw(99); g.note("set", k, i, x); auto b = v.a; b[i] = x; vs.push_back({ v.t.set(i, s_of(x)), b }); } break;
        case 5: if (n) { int i = g.raw(n); g.note("upd", k, i); auto b = v.a; b[i] += 3; vs.push_back({ v.t.apply(i, [&](S y) { y.s += 3; return y; }), b }); } break;
        case 6: { auto [l, r] = g.seg(n); g.note("prod", k, l, r); EQ(g.coin() ? v.t.prod(l, r) : v.t(l, r), fold(v.a, l, r)); EQ(v.t.prod_all(), fold(v.a, 0, n)); } break;
        default: if (n) { int i = g.raw(n); EQ(g.coin() ? v.t.get(i) : v.t[i], s_of(v.a[i])); } break;
        }
    }
    for (auto& v : vs) { auto d = v.t.dump(); CK((int)d.size() == n); for (int i = 0; i < n; ++i) EQ(d[i], s_of(v.a[i])); auto [l, r] = g.seg(n); EQ(v.t.prod(l, r), fold(v.a, l, r)); for (int i = 0; i < n; ++i) EQ(v.t[i], s_of(v.a[i])); }
}
struct Cs { i64 s, c; }; static Cs cs_op(Cs a, Cs b) { return { a.s + b.s, a.c + b.c }; } static Cs cs_e() { return { 0, 0 }; } static Cs cs_map(i64 f, Cs x) { return { x.s + f * x.c, x.c }; }
static bool cle_(Cs x) { return x.s <= lim_; }
using Lc = suisen::PersistentLazySegmentTree<Cs, cs_op, cs_e, i64, cs_map, add_ll, zero_ll>;
PBT(lazy_search, 5000, "the answer is strictly inside the array", 8, 12) {
    pool<Lc>(g); int n = g.size(1, 18); std::vector<i64> a = g.vec<i64>(n, 0, 6); std::vector<Cs> c; for (auto x : a) c.push_back({ x, 1 });
    Lc t(c), t0 = t; auto a0 = a;
    for (int q = g.size(0, 6); q--;) { auto [l, r] = g.seg(n); i64 f = g.raw(4); for (int i = l; i < r; ++i) a[i] += f; t = t.apply(l, r, f); }
    for (int rep = 0; rep < 4; ++rep) {
        bool old = g.chance(1, 4); auto& T = old ? t0 : t; auto& b = old ? a0 : a; lim_ = g.raw(6 * n); int p = g.raw(n + 1);
        int r = p; for (i64 s = 0; r < n && s + b[r] <= lim_; ++r) s += b[r];
        int l = p; for (i64 s = 0; l > 0 && s + b[l - 1] <= lim_; --l) s += b[l - 1];
        g.note("p", p, "lim", lim_, "a", b);
        EQ(T.max_right(p, cle_), r); EQ(T.min_left(p, cle_), l); EQ(T.template max_right<cle_>(p), r); EQ(T.template min_left<cle_>(p), l);
        if (r < n || l > 0) g.nontrivial();
    }
}
using D = suisen::PersistentDualSegmentTree<A, a_comp, a_id>;
PBT(dual, 6000, "a non-latest version is branched from or re-read after a later update", 8, 12) {
    pool<D>(g); int n = g.size(0, 16); struct V { D t; std::vector<A> a; }; std::vector<V> vs{ { D(n), std::vector<A>(n) } }; g.note("n=", n);
    for (int q = g.size(1, 22); q--;) {
        int k = g.coin() ? vs.size() - 1 : g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial();
        if (g.raw(4)) { auto [l, r] = g.seg(n); A f = gen_aff(g); g.note("apply", k, l, r, f); auto b = v.a; for (int i = l; i < r; ++i) b[i] = a_comp(f, b[i]); vs.push_back({ v.t.apply(l, r, f), b }); }
        else { A f = gen_aff(g); g.note("apply_all", k, f); auto b = v.a; for (auto& x : b) x = a_comp(f, x); vs.push_back({ v.t.apply_all(f), b }); }
    }
    for (auto& v : vs) for (int i = 0; i < n; ++i) EQ(g.coin() ? v.t[i] : v.t.get(i), v.a[i]);
}
using Dc = suisen::PersistentCommutativeDualSegmentTree<i64, add_ll, zero_ll>;
PBT(commutative_dual, 6000, "a non-latest version is branched from or re-read after a later update", 8, 12) {
    pool<Dc>(g); int n = g.size(0, 16); struct V { Dc t; std::vector<i64> a; }; std::vector<V> vs{ { Dc(n), std::vector<i64>(n) } }; g.note("n=", n);
    for (int q = g.size(1, 22); q--;) {
        int k = g.coin() ? vs.size() - 1 : g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial(); i64 f = g.range(-99, 99);
        if (g.raw(4)) { auto [l, r] = g.seg(n); g.note("apply", k, l, r, f); auto b = v.a; for (int i = l; i < r; ++i) b[i] += f; vs.push_back({ v.t.apply(l, r, f), b }); }
        else { g.note("apply_all", k, f); auto b = v.a; for (auto& x : b) x += f; vs.push_back({ v.t.apply_all(f), b }); }
    }
    for (auto& v : vs) for (int i = 0; i < n; ++i) EQ(g.coin() ? v.t[i] : v.t.get(i), v.a[i]);
}
// search under operators that do not commute: non-negative affine maps on a maximum
struct Fa { i64 a, b; }; static i64 fa_op(i64 x, i64 y) { return std::max(x, y); } static i64 fa_e() { return -1; } static i64 fa_map(Fa f, i64 x) { return x < 0 ? x : f.a * x + f.b; } static Fa fa_comp(Fa f, Fa g) { return { f.a * g.a, f.a * g.b + f.b }; } static Fa fa_id() { return { 1, 0 }; }
using Lf = suisen::PersistentLazySegmentTree<i64, fa_op, fa_e, Fa, fa_map, fa_comp, fa_id>;
PBT(lazy_search_ordered_operators, 4000, "the answer is strictly inside the array", 8, 12) {
    pool<Lf>(g); int n = g.size(1, 18); std::vector<i64> a = g.vec<i64>(n, 0, 6); struct V { Lf t; std::vector<i64> a; }; std::vector<V> vs{ { Lf(a), a } }; g.note("n=", n, a);
    for (int q = g.size(0, 10); q--;) { auto v = vs[g.coin() ? vs.size() - 1 : g.raw(vs.size())]; auto [l, r] = g.seg(n); Fa f{ g.in(0, 2), g.in(0, 5) }; if (g.chance(1, 4)) l = 0, r = n; g.note("apply", l, r, f.a, f.b); if (g.chance(1, 5)) { int i = g.raw(n); i64 x = g.in(0, 20); v.t = v.t.set(i, x); v.a[i] = x; } else { for (int i = l; i < r; ++i) v.a[i] = f.a * v.a[i] + f.b; v.t = v.t.apply(l, r, f); } vs.push_back(v); }
    for (int rep = 0; rep < 6; ++rep) { auto& v = vs[g.raw(vs.size())]; i64 lim = g.coin() ? v.a[g.raw(n)] - g.in(0, 1) : g.in(0, 30); auto ok = [&](i64 x) { return x <= lim; }; if (lim < 0) lim = 0; int l = g.raw(n + 1), r = l; while (r < n && v.a[r] <= lim) ++r; EQ(v.t.max_right(l, ok), r); if (l < r && r < n) g.nontrivial(); int e = g.raw(n + 1), b = e; while (b > 0 && v.a[b - 1] <= lim) --b; EQ(v.t.min_left(e, ok), b); EQ(v.t.prod(b, e), std::accumulate(v.a.begin() + b, v.a.begin() + e, i64(-1), fa_op)); }
}
