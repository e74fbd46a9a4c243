#include "common.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
using namespace hv;
template <int LG> static void arr(Gen& g) {
    using T = suisen::PersistentArray<i64, LG>; 
    T::init_pool((1 << 10) * g.factor() * g.factor());
    int n = g.size(0, 80); std::vector<i64> a = g.vec<i64>(n, -99, 99); bool f = g.chance(1, 5); if (f) a.assign(n, 7);
    struct V { T t; std::vector<i64> a; }; std::vector<V> vs{ { f ? T(n, 7) : T(a), a } }; g.note("n=", n, "lg", LG);
    for (int q = g.size(1, 40); q--;) {
        int k = g.coin() ? vs.size() - 1 : g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial(); if (!n) break;
        int i = g.raw(n);
        if (g.raw(3)) { i64 x = g.range(-99, 99); g.note("set", k, i, x); auto b = v.a; b[i] = x; vs.push_back({ v.t.set(i, x), b }); }
        else EQ(v.t.get(i), v.a[i]);
    }
    for (auto& v : vs) { EQ(v.t.size(), n); EQ(v.t.dump(), v.a); for (int i = 0; i < n; ++i) EQ(v.t.get(i), v.a[i]); }
    if (n) { // in-place assignment on an array that shares nothing
        T t(a); auto b = a; for (int q = 5; q--;) { int i = g.raw(n); i64 x = g.range(-9, 9); EQ(t.mut_set(i, x), b[i]); b[i] = x; } EQ(t.dump(), b);
        T c = t.clone(); EQ(c.dump(), b);
    }
}
PBT(array_16ary, 2500, "a non-latest version is branched from or re-read after a later update", 8, 60) { arr<4>(g); }
PBT(array_2ary, 2500, "a non-latest version is branched from or re-read after a later update", 8, 60) { arr<1>(g); }
PBT(array_4ary, 2500, "a non-latest version is branched from or re-read after a later update", 8, 60) { arr<2>(g); }
PBT(union_find, 4000, "a non-latest version is branched from or queried after later merges", 8, 60) {
    using T = suisen::PersistentUnionFind; T::init_pool((1 << 9) * g.factor() * g.factor()); int n = g.size(0, 24);
    struct V { T t; std::vector<int> c; }; std::vector<int> c0(n); for (int i = 0; i < n; ++i) c0[i] = i;
    std::vector<V> vs{ { T(n), c0 } }; g.note("n=", n);
    auto check = [&](V& v) {
        for (int x = 0; x < n; ++x) { EQ(v.t.size(x), (int)std::count(v.c.begin(), v.c.end(), v.c[x])); int r = v.t.root(x); CK(0 <= r && r < n && v.c[r] == v.c[x]); EQ(v.t[x], r); EQ(v.t.root(r), r); }
        auto gr = v.t.groups(); std::vector<std::vector<int>> e(n); for (int i = 0; i < n; ++i) e[v.c[i]].push_back(i);
        e.erase(std::remove_if(e.begin(), e.end(), [](auto& z) { return z.empty(); }), e.end()); for (auto& z : gr) std::sort(z.begin(), z.end()); EQ(sorted(gr), sorted(e));
    };
    for (int q = g.size(1, 30); q-- && n;) {
        int k = g.chance(2, 3) ? vs.size() - 1 : g.raw(vs.size()); auto& v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial();
        int x = g.raw(n), y = g.raw(n);
        if (g.raw(3)) { g.note("merge", k, x, y); auto [t, ok] = v.t.merge(x, y); EQ(ok, v.c[x] != v.c[y]); auto c = v.c; int from = c[x], to = c[y]; for (auto& z : c) if (z == from) z = to; vs.push_back({ t, c }); }
        else { g.note("same", k, x, y); EQ(v.t.same(x, y), v.c[x] == v.c[y]); EQ(v.t.size(x), (int)std::count(v.c.begin(), v.c.end(), v.c[x])); }
    }
    for (int i = vs.size(); i--;) check(vs[i]);
    for (auto& v : vs) check(v);
}
PBT(fenwick, 6000, "a non-latest version is branched from or re-read after a later update", 8, 60) {
    using T = suisen::PersistentFenwickTree<i64>; T::init_pool((1 << 12) * g.factor() * g.factor()); int n = g.size(0, 40); std::vector<i64> a = g.vec<i64>(n, -9, 9); bool zero = g.chance(1, 4); if (zero) a.assign(n, 0);
    struct V { T t; std::vector<i64> a; }; std::vector<V> vs{ { zero ? T(n) : T(a), a } }; g.note("n=", n, a);
    for (int q = g.size(1, 25); q-- && n;) { int k = g.coin() ? vs.size() - 1 : g.raw(vs.size()); auto v = vs[k]; if (k + 1 < (int)vs.size()) g.nontrivial();
        int i = g.raw(n); i64 x = g.range(-99, 99); g.note("add", k, i, x); auto b = v.a; b[i] += x; vs.push_back({ v.t.add(i, x), b }); }
    for (auto& v : vs) for (int rep = 0; rep < 4; ++rep) { auto [l, r] = g.seg(n); EQ(v.t.sum(l, r), std::accumulate(v.a.begin() + l, v.a.begin() + r, i64(0))); }
}
