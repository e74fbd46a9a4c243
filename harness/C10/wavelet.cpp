#include "common.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
using namespace hv;
PBT(bit_vector, 6000, "more than 256 bits", 8, 12) {
    int n = g.coin() ? g.size(0, 70) : g.size(200, 800); std::vector<char> a(n); int p = g.in(1, 9); for (auto& x : a) x = g.chance(p, 10); if (g.chance(1, 3)) { auto [l, r] = g.seg(n); std::fill(a.begin() + l, a.begin() + r, g.chance(3, 4)); } auto f = [&](int i) { return bool(a[i]); }; suisen::BitVector t; if (g.coin()) t = suisen::BitVector(n, f); else { suisen::BitVector u(n); u.build(f); t = u; } if (n > 256) g.nontrivial();
    std::vector<int> one(n + 1); for (int i = 0; i < n; ++i) one[i + 1] = one[i] + a[i];
    for (int i = 0; i < n; ++i) { CK(t[i] == a[i]); CK(t.access(i) == a[i]); } for (int i = 0; i <= n; ++i) { EQ(t.rank(true, i), one[i]); EQ(t.rank(false, i), i - one[i]); }
    for (int q = 10; q--;) { auto [l, r] = g.seg(n); EQ(t.rank(true, l, r), one[r] - one[l]); EQ(t.rank(false, l, r), r - l - one[r] + one[l]); bool v = g.coin(); int k = g.raw(n + 2), e = -7; for (int i = 0; i <= n; ++i) if ((v ? one[i] : i - one[i]) >= k) { e = i; break; } EQ(t.select(v, k, -7), e); }
}
// order statistics of x^v; T's unsigned order
template <class T, int W> static void wav(Gen& g) {
    using U = u64; int n = g.size(0, 60); const U MX = W >= 64 ? ~U(0) : (U(1) << W) - 1; U lim = std::is_signed_v<T> ? std::min<U>(MX, std::numeric_limits<T>::max()) : MX; auto val = [&]() -> T { U v; switch (g.raw(3)) { case 0: v = g.raw(6); break; case 1: v = lim - g.raw(std::min<U>(lim, 5) + 1); break; default: v = g.u64any(); } return T(lim == ~U(0) ? v : v % (lim + 1)); };
    std::vector<T> a(n); for (auto& x : a) x = val(); if (g.chance(1, 3)) for (auto& x : a) x = T(U(x) % 4 & lim); else if (g.chance(1, 6)) { T c = val(); for (auto& x : a) if (!g.chance(1, 20)) x = c; } g.note("a", a); using WM = suisen::WaveletMatrix<T, W>; WM t = g.coin() ? WM(a) : WM(n, [&](int i) { return a[i]; });
    for (int i = 0; i < n; ++i) { EQ(t[i], a[i]); EQ(t.access(i), a[i]); }
    for (int q = 20; q--;) {
        auto [l, r] = g.seg(n); T x = val(), u = val(), lo = val(), D = T(7); if (MX < U(std::numeric_limits<T>::max())) { /* bounds above the largest value */ if (g.chance(1, 8)) u = T(MX + 1 + g.raw(std::min<U>(1000, U(std::numeric_limits<T>::max()) - MX - 1) + 1)); if (g.chance(1, 8)) lo = T(MX + 1 + g.raw(std::min<U>(1000, U(std::numeric_limits<T>::max()) - MX - 1) + 1)); } g.note("l ", l, " r ", r, " x ", x, " u ", u); if (r - l > 2) g.nontrivial();
        int c = 0; T pv = n && g.coin() ? a[g.raw(n)] : val(); for (int i = 0; i < r; ++i) c += a[i] == pv; EQ(t.rank(pv, r), c);
        auto fam = [&](T x, auto kth, auto kthl, auto freq, auto freq2, auto geq, auto gt, auto lt, auto leq) {
            std::vector<T> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end(), [&](T p, T q) { return T(p ^ x) < T(q ^ x); }); int m = s.size(); int k = int(g.raw(m + 3)) - 1;
            EQ(kth(k), k < 0 || k >= m ? D : s[k]); EQ(kthl(k), k < 0 || k >= m ? D : s[m - 1 - k]);
            int a1 = 0, a2 = 0; for (T v : s) a1 += T(v ^ x) < u, a2 += lo <= T(v ^ x) && T(v ^ x) < u; EQ(freq(), a1); EQ(freq2(), a2);
            T e = D; for (int i = m; i--;) if (T(s[i] ^ x) >= lo) e = s[i]; EQ(geq(), e); e = D; for (int i = m; i--;) if (T(s[i] ^ x) > lo) e = s[i]; EQ(gt(), e); e = D; for (int i = 0; i < m; ++i) if (T(s[i] ^ x) < u) e = s[i]; EQ(lt(), e); e = D; for (int i = 0; i < m; ++i) if (T(s[i] ^ x) <= u) e = s[i]; EQ(leq(), e);
            if (m) { if (x) { EQ(t.range_xor_min(l, r, x), s[0]); EQ(t.range_xor_max(l, r, x), s[m - 1]); } else { EQ(t.range_min(l, r), s[0]); EQ(t.range_max(l, r), s[m - 1]); } }
        };
        int L = l, R = r;
        fam(x, [&](int k) { return t.range_xor_kth_smallest(L, R, k, x, D); }, [&](int k) { return t.range_xor_kth_largest(L, R, k, x, D); }, [&] { return t.range_xor_freq(L, R, x, u); }, [&] { return t.range_xor_freq(L, R, x, lo, u); }, [&] { return t.range_xor_min_geq(L, R, x, lo, D); }, [&] { return t.range_xor_min_gt(L, R, x, lo, D); }, [&] { return t.range_xor_max_lt(L, R, x, u, D); }, [&] { return t.range_xor_max_leq(L, R, x, u, D); });
        fam(0, [&](int k) { return t.range_kth_smallest(L, R, k, D); }, [&](int k) { return t.range_kth_largest(L, R, k, D); }, [&] { return t.range_freq(L, R, u); }, [&] { return t.range_freq(L, R, lo, u); }, [&] { return t.range_min_geq(L, R, lo, D); }, [&] { return t.range_min_gt(L, R, lo, D); }, [&] { return t.range_max_lt(L, R, u, D); }, [&] { return t.range_max_leq(L, R, u, D); });
    }
}
PBT(wavelet_u32, 2500, "a queried range of at least three elements", 8, 12) { wav<unsigned, 32>(g); }
PBT(wavelet_u64, 2000, "a queried range of at least three elements", 8, 12) { wav<unsigned long long, 64>(g); }
PBT(wavelet_int, 2500, "a queried range of at least three elements", 8, 12) { wav<int, 32>(g); }
PBT(wavelet_narrow, 5000, "a queried range of at least three elements", 8, 12) { switch (g.raw(5)) { case 0: wav<int, 1>(g); break; case 1: wav<int, 3>(g); break; case 2: wav<int, 31>(g); break; case 3: wav<unsigned, 30>(g); break; default: wav<long long, 60>(g); } }
template <class T, class CW> static void cwav(Gen& g) {
    int n = g.size(0, 60); auto val = [&]() -> T { if constexpr (std::is_same_v<T, std::string>) return g.str(g.in(0, 3), 2); else if constexpr (std::is_floating_point_v<T>) return g.chance(1, 12) ? (g.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) : g.coin() ? T(g.range(-8, 8)) / 4 : T(g.range(-1000000000, 1000000000)) * 1e10; else return g.coin() ? T(g.range(-4, 4)) : T(g.edgy(std::numeric_limits<T>::min(), std::numeric_limits<T>::max())); }; std::vector<T> a(n); for (auto& x : a) x = val(); g.note("a", a); CW t = g.coin() ? CW(a) : CW(n, [&](int i) { return a[i]; });
    for (int i = 0; i < n; ++i) { EQ(t[i], a[i]); EQ(t.access(i), a[i]); }
    for (int q = 20; q--;) {
        auto [l, r] = g.seg(n); auto v2 = [&] { return n && g.coin() ? a[g.raw(n)] : val(); }; T u = v2(), lo = v2(), D{}; if constexpr (std::is_same_v<T, std::string>) D = "none"; else D = T(7); g.note("l ", l, " r ", r, " u ", u, " lo ", lo); if (r - l > 2) g.nontrivial(); std::vector<T> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int m = s.size(), k = int(g.raw(m + 3)) - 1, c = 0;
        for (int i = 0; i < r; ++i) c += a[i] == u; EQ(t.rank(u, r), c); EQ(t.range_kth_smallest(l, r, k, D), k < 0 || k >= m ? D : s[k]); EQ(t.range_kth_largest(l, r, k, D), k < 0 || k >= m ? D : s[m - 1 - k]); if (m) { EQ(t.range_min(l, r), s[0]); EQ(t.range_max(l, r), s[m - 1]); }
        int a1 = 0, a2 = 0; for (T v : s) a1 += v < u, a2 += lo <= v && v < u; EQ(t.range_freq(l, r, u), a1); EQ(t.range_freq(l, r, lo, u), a2);
        T e = D; for (int i = m; i--;) if (s[i] >= lo) e = s[i]; EQ(t.range_min_geq(l, r, lo, D), e); e = D; for (int i = m; i--;) if (s[i] > lo) e = s[i]; EQ(t.range_min_gt(l, r, lo, D), e); e = D; for (int i = 0; i < m; ++i) if (s[i] < u) e = s[i]; EQ(t.range_max_lt(l, r, u, D), e); e = D; for (int i = 0; i < m; ++i) if (s[i] <= u) e = s[i]; EQ(t.range_max_leq(l, r, u, D), e);
    }
}
PBT(compressed_wavelet, 4000, "a queried range of at least three elements", 8, 12) { if (g.coin()) cwav<i64, suisen::CompressedWaveletMatrix<i64, 20>>(g); else cwav<int, suisen::CompressedWaveletMatrix<int, 11>>(g); }
PBT(compressed_wavelet_default, 2000, "a queried range of at least three elements", 8, 12) { if (g.coin()) cwav<i64, suisen::CompressedWaveletMatrix<i64>>(g); else cwav<int, suisen::CompressedWaveletMatrix<int>>(g); }
template <class T, int W> static void mexq(Gen& g) {
    int n = g.size(0, 50); const u64 MX = W >= 64 ? ~0ull : (1ull << W) - 1; auto val = [&]() -> T { u64 v = g.raw(3) ? g.raw(12) : g.u64any(); return T(v & MX & (u64)std::numeric_limits<T>::max()); }; std::vector<T> a(n); for (auto& x : a) x = val(); if (W <= 4 && n >= 2) for (int i = 0; i < n; ++i) if (g.coin()) a[i] = T(i & MX); g.note("a", a); suisen::RangeXoredMexQuery<T, W> t(a);
    for (int q = 20; q--;) { auto [l, r] = g.seg(n); T x = val(); if (W < 20 && g.chance(1, 6)) x = T(1) << W; std::set<u64> s; for (int i = l; i < r; ++i) s.insert(u64(a[i] ^ x)); u64 e = 0; while (s.count(e)) ++e; g.note("q ", l, " ", r, " ", x); EQ(u64(t.minimum_excluded(l, r, x)), e); if (e > 1) g.nontrivial(); }
}
PBT(xored_mex, 6000, "an answer of at least two", 8, 12) { switch (g.raw(5)) { case 0: mexq<int, 3>(g); break; case 1: mexq<int, 30>(g); break; case 2: mexq<unsigned, 32>(g); break; case 3: mexq<unsigned long long, 64>(g); break; default: mexq<int, 1>(g); } }
PBT(compressed_wavelet_ordered_types, 4000, "a queried range of at least three elements", 8, 12) { switch (g.raw(3)) { case 0: cwav<double, suisen::CompressedWaveletMatrix<double, 16>>(g); break; case 1: cwav<std::string, suisen::CompressedWaveletMatrix<std::string, 10>>(g); break; default: cwav<unsigned, suisen::CompressedWaveletMatrix<unsigned, 12>>(g); } }
