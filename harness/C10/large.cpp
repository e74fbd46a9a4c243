#include "large.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using namespace hv;
static int imin(int a, int b) { return std::min(a, b); } static int imine() { return INT_MAX; }
// O(n log n) reference minimum table
struct Ref { std::vector<std::vector<int>> t; Ref(const std::vector<int>& a) { t.push_back(a); for (size_t w = 1; 2 * w <= a.size(); w *= 2) { auto& p = t.back(); std::vector<int> q(a.size() - 2 * w + 1); for (size_t i = 0; i < q.size(); ++i) q[i] = std::min(p[i], p[i + w]); t.push_back(q); } } int operator()(int l, int r) const { int k = 31 - __builtin_clz(r - l); return std::min(t[k][l], t[k][r - (1 << k)]); } };
PBT(range_minimum_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g), how = g.raw(4); Bulk b(g); g.nontrivial(); std::vector<int> a(n), w(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : how == 2 ? b.in(0, 3) : b.in(-1000000000, 1000000000), w[i] = i ? w[i - 1] + (how == 0 ? 1 : how == 1 ? -1 : b.coin() ? 1 : -1) : 0;
    suisen::SparseTable<int, imin, imine> t(a); Ref ra(a), rw(w); suisen::RMQpm1<true> p(w); suisen::RMQpm1WithIndex<true> pi(w); auto wm = w; for (auto& x : wm) x = -x; suisen::RMQpm1<false> px(wm);
    for (int q = 0; q < 20000; ++q) { auto [l, r] = b.seg(n); if (l == r) continue; EQ(t(l, r), ra(l, r)); int e = rw(l, r); EQ(p(l, r), e); EQ(px(l, r), -e); auto [v, i] = pi(l, r); EQ(v, e); CK(l <= i && i < r); EQ(w[i], e); }
    auto ct = suisen::MinCartesianTreeBuilder(a).build(); EQ((int)ct.size(), n); auto rg = ct.ranges(); int root = ct.root; CK(rg[root] == std::make_pair(0, n));
    for (int v = 0; v < n; ++v) { auto [l, r] = rg[v]; CK(l <= v && v < r); EQ(a[v], ra(l, r)); int x = ct[v][0], y = ct[v][1]; if (x == -1) CK(l == v); else CK(rg[x] == std::make_pair(l, v)); if (y == -1) CK(v + 1 == r); else CK(rg[y] == std::make_pair(v + 1, r)); }
}
PBT(range_set_large, 4, "every case: 10^5 insertions and erasures") {
    using T = suisen::RangeSet<int, true>; T t; int n = 300000; Bulk b(g); g.nontrivial(); std::vector<char> in(n + 2); int w = g.pick<int>({ 1, 5, 3000 }); i64 work = 0, cnt = 0;
    for (int q = 0; q < 60000 && work < 20000000; ++q) { int l = b.in(1, n), r = std::min(n, l + b.in(0, w)); bool ins = b.raw(5) < 3; int c = 0; for (int i = l; i <= r; ++i) c += in[i] != ins, in[i] = ins; work += r - l + 1; EQ(int(ins ? t.insert(l, r) : t.erase(l, r)), c); cnt += ins ? c : -c; int x = b.in(1, n); CK(t.contains(x) == bool(in[x])); if (q % 16 == 0) { int z = x; while (in[z]) ++z; EQ(t.minimum_excluded(x), z); } }
    EQ((i64)t.size(), cnt); std::map<int, int> e; for (int i = 1; i <= n; ++i) if (in[i]) { int j = i; while (in[j + 1]) ++j; e[i] = j; i = j; } CK((std::map<int, int>(t) == e)); EQ((int)t.number_of_ranges(), (int)e.size());
}
PBT(offline_queries_large, 3, "every case: more than 30000 elements") {
    int n = big_n(g, 70000), V = g.pick<int>({ 3, 300, 1000000000 }); Bulk b(g); g.nontrivial(); auto a = b.vec<int>(n, -V, V);
    suisen::StaticRangeCountDistinctOffline d(a); std::vector<std::pair<int, int>> qs; for (int q = 0; q < 20000; ++q) { auto [l, r] = b.seg(n); d.add_query(l, r); if (q % 100 == 0) qs.emplace_back(l, r); else qs.emplace_back(-1, -1); }
    auto res = d.solve(); EQ(res.size(), qs.size()); for (size_t i = 0; i < qs.size(); ++i) if (qs[i].first >= 0) { std::vector<int> s(a.begin() + qs[i].first, a.begin() + qs[i].second); EQ(res[i], (int)uniq(s).size()); }
    suisen::StaticRangeModeQuery<int> m(a); for (int q = 0; q < 100; ++q) { auto [l, r] = b.seg(n); if (l == r) continue; std::vector<int> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int best = 0; for (size_t i = 0, j; i < s.size(); i = j) { for (j = i; j < s.size() && s[j] == s[i]; ++j) {} best = std::max<int>(best, j - i); } auto [v, f] = m.query(l, r); EQ(f, best); EQ(int(std::upper_bound(s.begin(), s.end(), v) - std::lower_bound(s.begin(), s.end(), v)), best); }
}
static i64 inversions(std::vector<int> a) { std::vector<int> u = uniq(a); std::vector<int> f(u.size() + 1); i64 r = 0; for (size_t k = 0; k < a.size(); ++k) { int i = std::upper_bound(u.begin(), u.end(), a[k]) - u.begin(); i64 le = 0; for (int j = i; j; j &= j - 1) le += f[j]; r += i64(k) - le; for (size_t j = i; j <= u.size(); j += j & -j) ++f[j]; } return r; }
PBT(inversions_large, 2, "every case: tens of thousands of elements") {
    int n = big_n(g, 30000), V = g.pick<int>({ 3, 1000000000 }); Bulk b(g); g.nontrivial(); auto a = b.vec<int>(n, -V, V); if (g.raw(3) == 0) a = sorted(a), std::reverse(a.begin(), a.end()); suisen::StaticRangeInversionNumberQuery<int> t(a);
    for (int q = 0; q < 60; ++q) { auto [l, r] = b.seg(n); EQ((i64)t(l, r), inversions(std::vector<int>(a.begin() + l, a.begin() + r))); }
}
PBT(inversions_beyond_int, 1, "every case: more than 2^31 inversions") {
    int n = g.in(66000, 72000); Bulk b(g); g.nontrivial(); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = n - i; for (int k = 20; k--;) std::swap(a[b.raw(n)], a[b.raw(n)]); suisen::StaticRangeInversionNumberQuery<int> t(a);
    EQ((i64)t(0, n), inversions(a)); for (int q = 0; q < 6; ++q) { int l = b.raw(300), r = n - b.raw(300); EQ((i64)t(l, r), inversions(std::vector<int>(a.begin() + l, a.begin() + r))); }
}
PBT(wavelet_large, 3, "every case: more than 50000 elements") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); int V = g.pick<int>({ 1, 1000, 2000000000 }); auto a = b.vec<int>(n, 0, V); suisen::WaveletMatrix<int, 31> t(a); suisen::CompressedWaveletMatrix<int> c(a);
    for (int i = 0; i < n; ++i) EQ(t[i], a[i]);
    for (int q = 0; q < 120; ++q) { auto [l, r] = b.seg(n); if (l == r) continue; std::vector<int> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int m = s.size();
        for (int k = 0; k < 5; ++k) { int i = b.in(0, m - 1), u = b.coin() ? s[b.raw(m)] : b.in(0, V); EQ(t.range_kth_smallest(l, r, i), s[i]); EQ(t.range_kth_largest(l, r, i), s[m - 1 - i]); EQ(c.range_kth_smallest(l, r, i), s[i]); int lt = std::lower_bound(s.begin(), s.end(), u) - s.begin(); EQ(t.range_freq(l, r, u), lt); EQ(c.range_freq(l, r, u), lt); EQ(t.range_max_lt(l, r, u, -1), lt ? s[lt - 1] : -1); EQ(t.range_min_geq(l, r, u, -1), lt < m ? s[lt] : -1); int rk = 0; for (int j = 0; j < r; ++j) rk += a[j] == u; EQ(t.rank(u, r), rk); } }
}
PBT(bit_vector_large, 3, "every case: more than 2^16 bits") {
    int n = big_n(g, 1000000); Bulk b(g); g.nontrivial(); int p = g.in(0, 4); std::vector<char> a(n); for (auto& x : a) x = p == 0 ? 1 : p == 1 ? b.raw(1000) == 0 : p == 2 ? 0 : b.raw(p) == 0; if (n) a[b.raw(n)] ^= 1; suisen::BitVector t(n, [&](int i) { return bool(a[i]); });
    std::vector<int> one(n + 1); for (int i = 0; i < n; ++i) one[i + 1] = one[i] + a[i]; for (int i = 0; i < n; ++i) { CK(t[i] == a[i]); EQ(t.rank(true, i), one[i]); } EQ(t.rank(true, n), one[n]); EQ(t.rank(false, n), n - one[n]);
    for (int q = 0; q < 3000; ++q) { int k = b.in(1, std::max(1, one[n])); if (k <= one[n]) EQ(t.select(true, k, -7), int(std::lower_bound(one.begin(), one.end(), k) - one.begin())); }
}
PBT(dynamic_bitset_large, 3, "every case: more than 2^16 bits") {
    int n = big_n(g), n2 = n; Bulk b(g); g.nontrivial(); suisen::DynamicBitSet t(n, false), u(n, false); std::vector<char> a(n), c(n); for (int i = 0; i < n; ++i) { a[i] = b.coin(); c[i] = b.raw(3) == 0; t[i] = a[i]; u[i] = c[i]; }
    auto same = [&] { int k = 0; for (int i = 0; i < n; ++i) { CK(bool(t[i]) == bool(a[i])); k += a[i]; } EQ(t.count(), k); };
    for (int q = 0; q < 40; ++q) { auto [l, r] = b.seg(n); switch (b.raw(8)) { case 0: t.range_set(l, r); std::fill(a.begin() + l, a.begin() + r, 1); break; case 1: t.range_reset(l, r); std::fill(a.begin() + l, a.begin() + r, 0); break; case 2: t.range_flip(l, r); for (int i = l; i < r; ++i) a[i] ^= 1; break; case 3: t ^= u; for (int i = 0; i < n; ++i) a[i] ^= c[i]; break; case 4: { int k = b.coin() ? b.in(0, n) : b.in(0, 200); t <<= k; for (int i = n; i-- > 0;) a[i] = i >= k ? a[i - k] : 0; } break; case 5: { int k = b.coin() ? b.in(0, n) : b.in(0, 200); t >>= k; for (int i = 0; i < n; ++i) a[i] = i + k < n ? a[i + k] : 0; } break; case 6: t |= u; for (int i = 0; i < n; ++i) a[i] |= c[i]; break; default: EQ(t.range_count(l, r), (int)std::count(a.begin() + l, a.begin() + r, 1)); int f = l; while (f < n && !a[f]) ++f; EQ(t.find_next(l - 1), f); } }
    same(); t.resize(n + 70000, true); a.resize(n + 70000, 1); n = a.size(); same(); t.resize(n2 / 2, false); a.resize(n2 / 2); n = a.size(); same();
}
