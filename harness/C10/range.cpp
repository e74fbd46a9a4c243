#include "common.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
using namespace hv;
static int imin(int a, int b) { return std::min(a, b); } static int imine() { return INT_MAX; }
static i64 gg(i64 a, i64 b) { return std::gcd(a, b); }
PBT(sparse_table, 20000, "at least three elements queried", 8, 15) {
    int n = g.size(0, 70); auto a = g.vec<int>(n, -50, 50); g.note("a", a); suisen::SparseTable<int, imin, imine> t(a); std::vector<i64> b(n); for (auto& x : b) x = 6 * g.range(0, 40); suisen::SparseTable<i64, gg, zero_ll> u(b); if (g.chance(1, 5)) { decltype(t) c; c = t; t = c; }
    for (int q = 20; q--;) { auto [l, r] = g.seg(n); int e = INT_MAX; i64 d = 0; for (int i = l; i < r; ++i) e = std::min(e, a[i]), d = std::gcd(d, b[i]); EQ(t(l, r), e); EQ(t.prod(l, r), e); EQ(u(l, r), d); if (r - l > 2) g.nontrivial(); }
}
template <bool mn> static void pm1(Gen& g) {
    int n = g.size(0, 120); std::vector<int> a(n); int m = g.raw(5); for (int i = 0; i < n; ++i) a[i] = i ? a[i - 1] + (m == 0 ? 1 : m == 1 ? -1 : m == 2 ? (i / 3 % 2 ? 1 : -1) : g.coin() ? 1 : -1) : g.in(-100, 100); g.note("a", a);
    suisen::RMQpm1<mn> t(a); suisen::RMQpm1WithIndex<mn> u(a);
    for (int q = 30; q--;) {
        auto [l, r] = g.seg(n); if (r - l > 16) g.nontrivial(); g.note("[", l, ",", r, ")"); int e = mn ? INT_MAX : INT_MIN; for (int i = l; i < r; ++i) e = mn ? std::min(e, a[i]) : std::max(e, a[i]);
        EQ(t(l, r), e); auto [v, i] = u(l, r); EQ(v, e); if (l < r) { CK(l <= i && i < r); EQ(a[i], e); }
    }
}
PBT(rmq_pm1_min, 6000, "a query spanning more than one 16-block", 8, 12) { pm1<true>(g); }
PBT(rmq_pm1_max, 6000, "a query spanning more than one 16-block", 8, 12) { pm1<false>(g); }
PBT(cartesian_tree, 12000, "at least four elements with a repeated value", 8, 12) {
    int n = g.size(0, 30); auto a = g.vec<int>(n, 0, g.pick<int>({ 2, 10, 1000 })); g.note("a", a); if (n > 3 && uniq(a).size() < a.size()) g.nontrivial();
    auto chk = [&](auto bd, const suisen::CartesianTree& t, auto better) {
        EQ((int)t.size(), n); if (!n) { CK(t.root == -1); CK(t.ranges().empty()); return; }
        // structure: in-order is 0..n-1, each vertex is extremal in its range, range agrees with parents
        std::vector<int> par(n, -2); std::vector<std::pair<int, int>> rg(n);
        std::function<void(int, int, int, int)> rec = [&](int v, int l, int r, int p) { if (v == -1) { CK(l == r); return; } CK(l <= v && v < r); CK(par[v] == -2); par[v] = p; rg[v] = { l, r }; for (int i = l; i < r; ++i) CK(!better(a[i], a[v])); rec(t[v][0], l, v, v); rec(t[v][1], v + 1, r, v); };
        rec(t.root, 0, n, -1); EQ(t.ranges(), rg); for (int i = 0; i < n; ++i) { EQ(bd.parent(i), par[i]); EQ(bd[i], par[i]); }
    };
    suisen::MinCartesianTreeBuilder b1(a); chk(b1, b1.build(), std::less<int>()); suisen::MaxCartesianTreeBuilder b2(a); chk(b2, suisen::MaxCartesianTreeBuilder::build(a), std::greater<int>()); CK(suisen::CartesianTree().ranges().empty());
}
template <bool mg, class V = i64> static void rset(Gen& g) {
    using T = suisen::RangeSet<V, mg>; T t; const int M = g.size(4, 40); const V vmax = std::numeric_limits<V>::max(), vmin = std::numeric_limits<V>::min(); const int edge = g.chance(1, 3) ? 1 + (int)g.raw(2) : 0; const V off = edge == 1 ? V(vmax - (M - 1)) : edge == 2 || std::is_unsigned_v<V> ? vmin : sizeof(V) == 8 ? V(g.pick<i64>({ 0, 0, -20, -(i64(1) << 60), i64(1) << 60 })) : V(g.pick<int>({ 0, -20 })); const bool lo_end = off == vmin, hi_end = V(off + (M - 1)) == vmax; std::vector<int> id(M, 0); int nid = 0; g.note("off", off); // id: range identity, 0 = absent
    for (int q = g.size(1, 40); q--;) {
        int l = g.raw(M), r = g.raw(M); if (g.chance(4, 5) && l > r) std::swap(l, r); bool one = g.chance(1, 5); if (one) r = l; bool ins = g.raw(5) < 3; g.note(ins ? "ins " : "del ", l, " ", r); int c = 0;
        if (ins) {
            for (int i = l; i <= r; ++i) c += !id[i]; EQ(one ? t.insert(off + l) : t.insert(off + l, off + r), (V)c);
            if (l <= r) { ++nid; int lo = l, hi = r; auto ext = [&](int k) { for (int i = 0; i < M; ++i) if (id[i] == k) lo = std::min(lo, i), hi = std::max(hi, i); }; for (int i = l; i <= r; ++i) if (id[i]) ext(id[i]); if (mg) { if (l && id[l - 1]) ext(id[l - 1]); if (r + 1 < M && id[r + 1]) ext(id[r + 1]); } for (int i = lo; i <= hi; ++i) id[i] = nid; }
        } else {
            for (int i = l; i <= r; ++i) c += !!id[i]; EQ(one ? t.erase(off + l) : t.erase(off + l, off + r), (V)c);
            if (l <= r) { int k = id[r]; if (k && r + 1 < M && id[r + 1] == k) { ++nid; for (int i = r + 1; i < M && id[i] == k; ++i) id[i] = nid; } for (int i = l; i <= r; ++i) id[i] = 0; }
        }
        std::map<V, V> e; int sz = 0; for (int i = 0; i < M; ++i) if (id[i]) { ++sz; int j = i; while (j + 1 < M && id[j + 1] == id[i]) ++j, ++sz; e[V(off + i)] = V(off + j); i = j; }
        { std::map<V, V> tt(t); EQ(tt, e); } EQ(t.size(), (V)sz); EQ(t.number_of_elements(), (V)sz); EQ(t.number_of_ranges(), (int)e.size()); if (e.size() > 2) g.nontrivial();
        auto gx = [&] { int x = int(g.raw(M + 2)) - 1; return x < 0 && lo_end ? 0 : x == M && hi_end ? M - 1 : x; }; int x = gx(), y = gx(); auto I = [&](int x) { return x >= 0 && x < M ? id[x] : 0; };
        CK(t.contains(off + x) == (I(x) != 0)); auto it = t.find_range(off + x); if (I(x)) { CK(it != t.end()); CK(it->first <= off + x && off + x <= it->second); CK(e.at(it->first) == it->second); } else CK(it == t.end());
        CK(t.in_the_same_range(off + x, off + y) == (I(x) && I(x) == I(y)));
        if constexpr (mg) { int z = x; while (I(z)) ++z; if (z < M || !hi_end) EQ(t.minimum_excluded(off + x), V(off + z)); z = x; while (I(z)) --z; if (z >= 0 || !lo_end) EQ(t.maximum_excluded(off + x), V(off + z)); }
    }
}
PBT(range_set, 15000, "at least three disjoint ranges", 8, 23) { switch (g.raw(4)) { case 0: rset<true, int>(g); break; case 1: rset<true, unsigned>(g); break; default: rset<true>(g); } }
PBT(range_set_no_merge, 15000, "at least three disjoint ranges", 8, 25) { switch (g.raw(4)) { case 0: rset<false, int>(g); break; case 1: rset<false, unsigned>(g); break; default: rset<false>(g); } }
PBT(count_distinct, 12000, "a query of at least three elements containing a repeat", 8, 17) {
    int n = g.size(0, 40); auto a = g.vec<int>(n, -3, g.pick<int>({ 0, 5, 1000000 })); g.note("a", a); suisen::StaticRangeCountDistinctOffline t(a); if (g.coin()) t.reserve(10); std::vector<int> e; for (int q = g.size(0, 30); q--;) { auto [l, r] = g.seg(n); EQ(t.add_query(l, r), (int)e.size()); e.push_back(std::set<int>(a.begin() + l, a.begin() + r).size()); if (r - l > 2 && e.back() < r - l) g.nontrivial(); } EQ(t.solve(), e); EQ(t.solve(), e);
}
template <class T> static void invq(Gen& g) {
    int n = g.size(0, 60); std::vector<T> a(n); int k = g.raw(4); for (auto& x : a) x = T(k == 0 ? g.range(0, 2) : k == 1 ? g.range(0, 100) : g.edgy(std::is_signed_v<T> ? -2000000000 : 0, 2000000000)); if (g.chance(1, 4)) for (auto& x : a) if (g.coin()) x = std::numeric_limits<T>::max(); g.note("a", a); suisen::StaticRangeInversionNumberQuery<T> t(a);
    for (int q = 20; q--;) { auto [l, r] = g.seg(n); i64 e = 0; for (int i = l; i < r; ++i) for (int j = l; j < i; ++j) e += a[j] > a[i]; if (e) g.nontrivial(); g.note("q ", l, " ", r); EQ(t(l, r), e); }
}
PBT(range_inversions, 12000, "a query with at least one inversion", 8, 19) { if (g.coin()) invq<int>(g); else if (g.coin()) invq<unsigned>(g); else invq<double>(g); }
PBT(range_mode, 12000, "a query with mode frequency at least two", 8, 14) {
    int n = g.size(0, 60); auto a = g.vec<i64>(n, -2, g.pick<int>({ -1, 3, 30, 1000000000 })); g.note("a", a); suisen::StaticRangeModeQuery<i64> t(a);
    for (int q = 25; q-- && n;) { auto [l, r] = g.seg(n); if (l == r) continue; std::map<i64, int> c; int mx = 0; for (int i = l; i < r; ++i) mx = std::max(mx, ++c[a[i]]); g.note("q ", l, " ", r); auto [v, f] = q % 2 ? t(l, r) : t.query(l, r); EQ(f, mx); CK(c.count(v)); EQ(c[v], mx); if (mx > 1) g.nontrivial(); }
}
