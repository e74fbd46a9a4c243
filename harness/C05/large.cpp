#include "large.hpp"
#include <iterator>
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
using namespace hv;
// a chain of updates with snapshots (version, contents); every snapshot is re-read at the end,
// and the chain sometimes restarts from an older snapshot
template <class T, class X, class Step, class Read> static void chain(Gen& g, Bulk& b, T t, std::vector<X> a, int steps, int snaps, Step step, Read read) {
    std::vector<std::pair<T, std::vector<X>>> vs{ { t, a } }; g.nontrivial();
    for (int s = 0; s < snaps; ++s) {
        if (b.raw(3) == 0) { auto& v = vs[b.raw(vs.size())]; t = v.first, a = v.second; }
        for (int k = 0; k < steps; ++k) t = step(t, a);
        vs.emplace_back(t, a);
    }
    for (auto& [u, c] : vs) read(u, c);
}
PBT(segment_large, 3, "every case: more than 2^16 elements, six snapshots re-read") {
    using T = suisen::PersistentSegmentTree<W, w_op, w_e>; T::init_pool(4000000); int n = big_n(g, 140000); Bulk b(g); std::vector<W> a(n); for (auto& x : a) x = w_of(b.raw(1000));
    chain(g, b, T(a), a, 8000, 6, [&](T t, std::vector<W>& c) { int i = b.in(0, n - 1); c[i] = w_of(b.raw(1000)); return t.set(i, c[i]); },
        [&](T t, std::vector<W>& c) { EQ(t.dump(), c); EQ(t.prod_all(), w_fold(c, 0, n)); for (int k = 0; k < 4; ++k) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), w_fold(c, l, r)); } for (int k = 0; k < 500; ++k) { int i = b.in(0, n - 1); EQ(t.get(i), c[i]); } });
}
PBT(lazy_large, 2, "every case: more than 30000 elements, six snapshots re-read") {
    using T = suisen::PersistentLazySegmentTree<S, s_op, s_e, A, s_map, a_comp, a_id>; T::init_pool(3000000); int n = big_n(g, 70000); Bulk b(g); std::vector<Z> a(n); std::vector<S> s; for (auto& x : a) x = b.raw(P), s.push_back(s_of(x));
    auto fold = [&](const std::vector<Z>& c, int l, int r) { S z; for (int i = l; i < r; ++i) z = s_op(z, s_of(c[i])); return z; };
    chain(g, b, T(s), a, 100, 6, [&](T t, std::vector<Z>& c) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P), (i64)b.raw(P) }; int i0 = b.in(0, n - 1); switch (b.raw(5)) { case 0: c[i0] = b.raw(P); return t.set(i0, s_of(c[i0])); case 1: c[i0] += 3; return t.apply(i0, [&](S y) { y.s += 3; return y; }); case 2: for (auto& x : c) x = a_app(f, x); return t.apply_all(f); default: for (int i = l; i < r; ++i) c[i] = a_app(f, c[i]); return t.apply(l, r, f); } },
        [&](T t, std::vector<Z>& c) { EQ(t.prod_all(), fold(c, 0, n)); for (int k = 0; k < 4; ++k) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), fold(c, l, r)); } for (int k = 0; k < 500; ++k) { int i = b.in(0, n - 1); EQ(t.get(i), s_of(c[i])); } });
}
PBT(dual_large, 2, "every case: more than 30000 elements, six snapshots re-read") {
    using T = suisen::PersistentDualSegmentTree<A, a_comp, a_id>; T::init_pool(3000000); int n = big_n(g, 70000); Bulk b(g); std::vector<A> a(n);
    chain(g, b, T(n), a, 100, 6, [&](T t, std::vector<A>& c) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P), (i64)b.raw(P) }; for (int i = l; i < r; ++i) c[i] = a_comp(f, c[i]); return t.apply(l, r, f); },
        [&](T t, std::vector<A>& c) { for (int i = 0; i < n; i += 3) EQ(t.get(i), c[i]); });
}
PBT(commutative_dual_large, 2, "every case: more than 30000 elements, six snapshots re-read") {
    using T = suisen::PersistentCommutativeDualSegmentTree<i64, add_ll, zero_ll>; T::init_pool(3000000); int n = big_n(g, 70000); Bulk b(g); std::vector<i64> a(n);
    chain(g, b, T(n), a, 100, 6, [&](T t, std::vector<i64>& c) { auto [l, r] = b.seg(n); i64 f = b.range(-1000000000000LL, 1000000000000LL); for (int i = l; i < r; ++i) c[i] += f; return t.apply(l, r, f); },
        [&](T t, std::vector<i64>& c) { for (int i = 0; i < n; i += 3) EQ(t.get(i), c[i]); });
}
template <int LG> static void arr(Gen& g) {
    using T = suisen::PersistentArray<i64, LG>; T::init_pool(LG == 4 ? 600000 : 2500000); int n = big_n(g, 140000); Bulk b(g); auto a = b.vec(n, -1000000000000LL, 1000000000000LL);
    chain(g, b, T(a), a, 10000, 6, [&](T t, std::vector<i64>& c) { int i = b.in(0, n - 1); c[i] = b.range(-1000000000000LL, 1000000000000LL); return t.set(i, c[i]); },
        [&](T t, std::vector<i64>& c) { EQ(t.size(), n); EQ(t.dump(), c); for (int k = 0; k < 500; ++k) { int i = b.in(0, n - 1); EQ(t.get(i), c[i]); } });
}
PBT(array16_large, 3, "every case: more than 2^16 elements, six snapshots re-read") { arr<4>(g); }
PBT(array2_large, 2, "every case: more than 2^16 elements, six snapshots re-read") { arr<1>(g); }
PBT(fenwick_large, 2, "every case: more than 50000 elements, six snapshots re-read") {
    using T = suisen::PersistentFenwickTree<i64>; T::init_pool(8000000); int n = big_n(g, 100000); Bulk b(g); auto a = b.vec(n, -1000000000, 1000000000);
    chain(g, b, T(a), a, 1500, 6, [&](T t, std::vector<i64>& c) { int i = b.in(0, n - 1); i64 x = b.range(-1000000000, 1000000000); c[i] += x; return t.add(i, x); },
        [&](T t, std::vector<i64>& c) { std::vector<i64> p(n + 1); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + c[i]; for (int k = 0; k < 2000; ++k) { auto [l, r] = b.seg(n); EQ(t.sum(l, r), p[r] - p[l]); } });
}
PBT(union_find_large, 2, "every case: more than 50000 elements, snapshots re-read") {
    using T = suisen::PersistentUnionFind; T::init_pool(6000000); int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); T t(n); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    auto root = [&](std::vector<int>& q, int x) { while (q[x] != x) x = q[x] = q[q[x]]; return x; };
    std::vector<std::pair<T, std::vector<int>>> vs{ { t, p } }; int shape = g.raw(3);
    for (int s = 0; s < 5; ++s) {
        for (int k = 0; k < n / 8; ++k) { int x, y; if (shape == 0) x = b.in(0, n - 1), y = b.in(0, n - 1); else if (shape == 1) x = s * (n / 8) + k, y = x + 1; else x = 0, y = s * (n / 8) + k + 1; if (y >= n) y = n - 1; auto [u, ok] = t.merge(x, y); int rx = root(p, x), ry = root(p, y); EQ(ok, rx != ry); p[rx] = ry; t = u; }
        vs.emplace_back(t, p);
    }
    for (auto& [u, q] : vs) { std::vector<int> c(n); for (int i = 0; i < n; ++i) ++c[root(q, i)]; for (int k = 0; k < 2000; ++k) { int x = b.in(0, n - 1), y = b.in(0, n - 1); EQ(u.same(x, y), root(q, x) == root(q, y)); EQ(u.size(x), c[root(q, x)]); } }
}
