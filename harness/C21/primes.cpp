#include "num.hpp"
#include "library/number/factorized_form.hpp"
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/deterministic_miller_rabin_simd.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/util.hpp"
using namespace hv;
PBT(miller_rabin_64, 30000, "n at least 2^32") {
    u64 n = gen_shape(g, g.pick<u64>({ 400000, 1ULL << 32, 400000000000ULL, 60000000000000ULL, 8000000000000000ULL, 600000000000000000ULL, ~0ULL >> 1, ~0ULL })); if (g.chance(1, 50)) n = g.raw(130); g.note(n); bool w = isp(n); EQ(suisen::miller_rabin::is_prime<u64>(n), w); if (n < 1ULL << 63) EQ(suisen::miller_rabin::is_prime<i64>(n), w); if (n < 1ULL << 31) EQ(suisen::miller_rabin::is_prime<int>(n), w); if (n < 1ULL << 32) EQ(suisen::miller_rabin::is_prime<unsigned>(n), w); if (n < 1ULL << 31 && __builtin_cpu_supports("avx2")) EQ(suisen::miller_rabin_simd::is_prime(n), w); g.label(w ? "prime" : "composite"); g.nontrivial(n >> 32);
}
// every number of a block, so that no residue class escapes
PBT(miller_rabin_blocks, 60, "a block with at least 20 primes") {
    u64 top = g.pick<u64>({ 1000, 341531, 1050535501ULL, 1ULL << 31, 1ULL << 32, 350269456337ULL }), lo = g.coin() ? 0 : g.raw(top); if (g.chance(1, 3)) lo = top > 1500 ? top - 1500 : 0; const int B = 3000; std::vector<char> c(B, 1); for (u64 p = 2; p * p < lo + B; ++p) for (u64 q = std::max(p * p, (lo + p - 1) / p * p); q < lo + B; q += p) c[q - lo] = 0; int np = 0; for (int i = 0; i < B; ++i) { u64 n = lo + i; bool w = n >= 2 && c[i]; np += w; CKM(suisen::miller_rabin::is_prime<u64>(n) == w, n); if (n < 1ULL << 31 && __builtin_cpu_supports("avx2")) CKM(suisen::miller_rabin_simd::is_prime(n) == w, n); } g.nontrivial(np >= 20);
}
// well-known hard inputs of fixed-base strong-pseudoprime tests: the first composites that pass for the published base sets, Carmichael numbers, and the prime divisors of the bases themselves
static const std::vector<u64>& mr_hard() {
    static const std::vector<u64> v = [] {
        std::vector<u64> r{ 2047, 1373653, 9080191, 25326001, 3215031751ULL, 4759123141ULL, 1122004669633ULL, 2152302898747ULL, 3474749660383ULL, 341550071728321ULL, 3825123056546413051ULL, 341531, 1050535501ULL, 350269456337ULL, 55245642489451ULL, 7999252175582851ULL, 585226005592931977ULL, 21652684502221ULL, 1195068768795265792ULL, 316349281ULL, 273919523041ULL, 47636622961201ULL, 561, 1105, 1729, 8911, 3277, 4033, 4681, 8321, 49141, 65281, 80581, 85489, 88357, 90751, 104653, 130561, 196093, 220729, 233017, 252601, 253241, 256999, 271951, 280601, 314821, 357761, 390937, 458989, 476971, 486737 };
        for (u64 b : { 9345883071009581737ULL, 336781006125ULL, 9639812373923155ULL, 4230279247111683200ULL, 14694767155120705706ULL, 16641139526367750375ULL, 141889084524735ULL, 1199124725622454117ULL, 11096072698276303650ULL, 4130806001517ULL, 149795463772692060ULL, 186635894390467037ULL, 3967304179347715805ULL, 123635709730000ULL, 9233062284813009ULL, 43835965440333360ULL, 761179012939631437ULL, 1263739024124850375ULL, 325ULL, 9375ULL, 28178ULL, 450775ULL, 9780504ULL, 1795265022ULL }) { for (u64 p = 2; p * p <= b && p < 3000000; ++p) if (b % p == 0) { r.push_back(p); while (b % p == 0) b /= p; } if (b > 1) r.push_back(b); }
        return r;
    }();
    return v;
}
PBT(miller_rabin_hard_inputs, 4000, "n at least 2^20") {
    u64 n = g.pick(mr_hard()); if (g.chance(1, 4)) { int d = g.in(-2, 2); n += d; } g.note(n); bool w = isp(n); EQ(suisen::miller_rabin::is_prime<u64>(n), w); if (n < 1ULL << 63) EQ(suisen::miller_rabin::is_prime<i64>(n), w); if (n < 1ULL << 31) EQ(suisen::miller_rabin::is_prime<int>(n), w); if (n < 1ULL << 31 && __builtin_cpu_supports("avx2")) EQ(suisen::miller_rabin_simd::is_prime(n), w); if (n > 0 && g.chance(1, 20)) { auto f = suisen::fast_factorize::factorize<u64>(n); u128 v = 1; for (auto [p, e] : f) { CKM(isp(p), p); for (int i = 0; i < e; ++i) v *= p; } CK(v == n); CK((f.size() == 1 && f[0].second == 1) == w); } g.nontrivial(n >> 20);
}
template <class T> static void fz(Gen& g, u64 lim) { u64 n = gen_shape(g, lim); g.note(n); auto f = suisen::fast_factorize::factorize<T>((T)n); u128 v = 1; std::set<u64> ps; for (auto [p, e] : f) { CKM(isp((u64)p), p); CKM(ps.insert((u64)p).second, "prime listed twice"); CK(e >= 1); for (int i = 0; i < e; ++i) { v *= (u64)p; CKM(v <= n, "product exceeds n"); } } EQ((u64)v, n); g.nontrivial(f.size() >= 2 && n > 1000000); }
PBT(fast_factorize, 4000, "n above the sieve bound with at least two primes") { switch (g.raw(4)) { case 0: fz<int>(g, INT_MAX); break; case 1: fz<unsigned>(g, UINT_MAX); break; case 2: fz<i64>(g, g.coin() ? INT64_MAX : 1LL << g.in(20, 62)); break; default: fz<u64>(g, g.coin() ? ~0ULL : 1ULL << g.in(20, 63)); } }
PBT(trial_factorize, 600, "at least two prime factors and n > 10^6") {
    u64 lim = g.pick<u64>({ 100, 100000, 100000000, 2147483647, 20000000000ULL }); u64 n = gen_shape(g, lim); g.note(n); auto r = fac(n); auto run = [&](auto t) { using T = decltype(t); auto f = suisen::factorize<T>((T)n); EQ(f.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) { EQ((i64)f[i].first, r[i].first); EQ(f[i].second, r[i].second); } std::vector<i64> ds; u64 cnt = 1; for (auto [p, c] : r) cnt *= c + 1; auto d = suisen::divisors<T>((T)n); EQ((u64)d.size(), cnt); auto s = uniq(d); EQ((u64)s.size(), cnt); for (auto x : s) CK(x >= 1 && n % x == 0); auto d2 = suisen::divisors<T>(f); EQ(sorted(d2), s); i64 ph = n, la = 1; for (auto [p, c] : r) { ph = ph / p * (p - 1); i64 q = p - 1; for (int i = 1; i < c; ++i) q *= p; if (p == 2 && c >= 3) q /= 2; la = std::lcm(la, q); } EQ((i64)suisen::totient<T>((T)n), ph); EQ((i64)suisen::totient<T>(f), ph); EQ((i64)suisen::carmichael<T>((T)n), la); EQ((i64)suisen::carmichael<T>(f), la); }; run((i64)0); if (n <= INT_MAX) run((int)0); g.nontrivial(r.size() >= 2 && n > 1000000);
}
// n with a prime factor above 2^31: only the search below sqrt matters for time, so the cofactor is smooth
PBT(trial_factorize_large, 60, "largest prime above 2^31") { u64 a = 1; for (int t = g.in(1, 6); t--;) { u64 p = gen_prime(g, 100); if (a < 1000000) a *= p; } u64 p = gen_prime(g, g.pick<u64>({ 5000000000ULL, 3000000000ULL, 2200000000ULL })); u64 n = a * p; g.note(n); auto f = suisen::factorize<i64>(n); u128 v = 1; i64 last = 0; for (auto [q, e] : f) { CKM(isp(q), q); CK(q > last); last = q; for (int i = 0; i < e; ++i) v *= q; } EQ((u64)v, n); g.nontrivial(p >> 31); }
PBT(trial_factorize_two_large, 1, "always") { u64 p = (1ULL << 31) + g.in(0, 3000), q; while (!isp(p)) ++p; q = g.chance(1, 3) ? p : p + g.in(1, 100000); while (!isp(q)) ++q; g.nontrivial(); g.note(p, " ", q); std::vector<std::pair<u64, int>> w, f; if (p == q) w = { { p, 2 } }; else w = { { p, 1 }, { q, 1 } }; if (g.coin()) { for (auto [x, e] : suisen::factorize<i64>(p * q)) f.emplace_back(x, e); } else { for (auto [x, e] : suisen::factorize<u64>(p * q)) f.emplace_back(x, e); } CKM(f == w, "factors above 2^31"); }
PBT(util_tables, 200, "n at least 30", 8, 12) { int n = g.size(0, 400); auto d = suisen::divisors_table(n); EQ((int)d.size(), n + 1); auto t = suisen::totient_table(n); EQ((int)t.size(), n + 1); for (int i = 1; i <= n; ++i) { std::vector<int> w; int c = 0; for (int j = 1; j <= i; ++j) { if (i % j == 0) w.push_back(j); c += std::gcd(i, j) == 1; } EQ(sorted(d[i]), w); EQ(t[i], c); } i64 a = g.range(-9, 9); int b = g.in(0, 15); i64 r = 1; for (int i = 0; i < b; ++i) r *= a; EQ(suisen::powi<i64>(a, b), r); g.nontrivial(n >= 30); }
static std::vector<char> sieve_ref(int n) { std::vector<char> c(n + 1, 1); for (int i = 0; i <= n && i < 2; ++i) c[i] = 0; for (int p = 2; p * p <= n; ++p) if (c[p]) for (int q = p * p; q <= n; q += p) c[q] = 0; return c; }
template <unsigned N> static void simple(Gen& g) { static suisen::SimpleSieve<N> s; static auto c = sieve_ref(N); for (int q = g.in(1, 30); q--;) { unsigned p = g.chance(1, 3) ? N - g.raw(std::min(N, 40u) + 1) : g.raw(N + 1); CKM(s.is_prime(p) == (bool)c[p], p); } unsigned m = g.coin() ? N : g.raw(N + 1); std::vector<int> w; for (unsigned i = 0; i <= m; ++i) if (c[i]) w.push_back(i); g.note("N ", N, " max ", m); auto l = s.prime_list(m); EQ(l, w); if (g.chance(1, 50)) for (unsigned p = 0; p <= N; ++p) CKM(s.is_prime(p) == (bool)c[p], p); g.nontrivial(w.size() >= 10); }
template <unsigned N> static void full(Gen& g) { static suisen::Sieve<N> s; static auto c = sieve_ref(N); for (int q = g.in(1, 30); q--;) { unsigned p = g.chance(1, 3) ? N - g.raw(std::min(N, 40u) + 1) : g.raw(N + 1); g.note("N ", N, " p ", p); CKM(s.is_prime(p) == (bool)c[p], p); if (p >= 2) { int f = s.prime_factor(p); CKM(f >= 2 && p % f == 0 && c[f], f); } if (p >= 1) { auto r = fac(p); auto f = s.factorize(p); std::sort(f.begin(), f.end()); EQ(f.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) { EQ((i64)f[i].first, r[i].first); EQ(f[i].second, r[i].second); } auto d = sorted(s.divisors(p)); u64 cnt = 1; for (auto [x, e] : r) cnt *= e + 1; EQ((u64)d.size(), cnt); EQ((u64)uniq(d).size(), cnt); for (int x : d) CK(p % x == 0); g.nontrivial(r.size() >= 2); } } if (g.chance(1, 50)) for (unsigned p = 0; p <= N; ++p) { CKM(s.is_prime(p) == (bool)c[p], p); if (p > 1) { int f = s.prime_factor(p); CKM(f >= 2 && p % f == 0 && c[f], p); } } }
PBT(simple_sieve, 600, "at least 10 primes listed") { switch (g.raw(14)) { case 0: simple<1>(g); break; case 1: simple<2>(g); break; case 2: simple<6>(g); break; case 3: simple<29>(g); break; case 4: simple<30>(g); break; case 5: simple<31>(g); break; case 6: simple<48>(g); break; case 7: simple<49>(g); break; case 8: simple<361>(g); break; case 9: simple<840>(g); break; case 10: simple<961>(g); break; case 11: simple<3721>(g); break; case 12: simple<99999>(g); break; default: simple<1000000>(g); } }
PBT(full_sieve, 600, "a number with two distinct primes") { switch (g.raw(14)) { case 0: full<1>(g); break; case 1: full<2>(g); break; case 2: full<7>(g); break; case 3: full<29>(g); break; case 4: full<30>(g); break; case 5: full<31>(g); break; case 6: full<48>(g); break; case 7: full<49>(g); break; case 8: full<361>(g); break; case 9: full<840>(g); break; case 10: full<961>(g); break; case 11: full<3721>(g); break; case 12: full<99999>(g); break; default: full<1000000>(g); } }
template <unsigned N> static void cx(Gen& g) { static constexpr suisen::SimpleSieveConstexpr<N> s; static constexpr suisen::SieveConstexpr<N> t; static auto c = sieve_ref(N); for (unsigned p = 0; p <= N; ++p) { CKM(s.is_prime(p) == (bool)c[p], p); CKM(t.is_prime(p) == (bool)c[p], p); if (p > 1) { int f = t.prime_factor(p); CKM(f >= 2 && p % f == 0 && c[f], p); } } g.nontrivial(N > 100); }
PBT(constexpr_sieve, 60, "N > 100") { switch (g.raw(7)) { case 0: cx<1>(g); break; case 1: cx<10>(g); break; case 2: cx<30>(g); break; case 3: cx<49>(g); break; case 4: cx<961>(g); break; case 5: cx<1020>(g); break; default: cx<20000>(g); } }
PBT(linear_sieve, 400, "n at least 100", 8, 12) { int n = g.size(0, 3000); suisen::LinearSieve s(n); auto c = sieve_ref(n); std::vector<int> w; for (int i = 0; i <= n; ++i) if (c[i]) w.push_back(i); EQ(s.get_prime_list(), w); EQ(s.prime_num(), (int)w.size()); auto m = s.get_min_prime_factor(); EQ((int)m.size(), n + 1); for (int i = 2; i <= n; ++i) { int p = 2; while (p * p <= i && i % p) ++p; if (p * p > i) p = i; EQ(m[i], p); } if (n) for (int q = 5; q--;) { int x = 1 + g.raw(n); auto r = fac(x); auto f = s.factorize(x); EQ(f.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) { EQ((i64)f[i].first, r[i].first); EQ(f[i].second, r[i].second); } } g.nontrivial(n >= 100); }
// FactorizedForm / PrimePower: aggregates that decompose by structured bindings, by value, reference and const reference
template <class T> static void ppow(Gen& g) { suisen::FactorizedForm<T> f; u64 n = 1 + g.raw(100000); for (auto [p, e] : fac(n)) f.push_back({ (T)p, (int)e }); u64 a = 1, b = 1; for (auto [p, e] : f) { static_assert(std::is_same_v<decltype(p), T>); for (int i = 0; i < e; ++i) a *= p; } EQ(a, n); for (auto& [p, e] : f) { p = p + 1; ++e; } const auto& cf = f; size_t i = 0; for (const auto& [p, e] : cf) { EQ(p, cf[i].prime); EQ(e, cf[i].exponent); EQ(cf[i].template get<0>(), p); EQ(cf[i].template get<1>(), e); ++i; for (int k = 1; k < e; ++k) b *= p - 1; } EQ(b, n); static_assert(std::tuple_size_v<suisen::PrimePower<T>> == 2); g.nontrivial(f.size() >= 2); }
PBT(factorized_form, 4000, "at least two prime powers") { switch (g.raw(3)) { case 0: ppow<int>(g); break; case 1: ppow<i64>(g); break; default: ppow<unsigned>(g); } }
