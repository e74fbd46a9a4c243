// Binomial coefficients and Stirling numbers for special moduli.
#include "poly.hpp"
#include <algorithm>
#include <cassert>
#include <numeric>
#include <tuple>
#include <atcoder/math>
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
using namespace hv;
using namespace suisen;
using MP = atcoder::modint998244353;
// C(n, k) mod p^q by counting p and multiplying the p-free parts of n! (periodic modulo p^q)
static i64 inv_mod(i64 a, i64 m) { i64 b = m, u = 1, w = 0; a %= m; while (b) { i64 t = a / b; a -= t * b; std::swap(a, b); u -= t * w; std::swap(u, w); } return (u % m + m) % m; }
struct PP { i64 p, q, m; std::vector<i64> f; PP(i64 p, i64 q) : p(p), q(q), m(1) { for (int i = 0; i < q; ++i) m *= p; f.assign(m + 1, 1 % m); for (i64 i = 1; i <= m; ++i) f[i] = i % p ? f[i - 1] * i % m : f[i - 1]; }
    std::pair<i64, i64> fact(i64 n) const { i64 e = 0, u = 1 % m; for (; n; n /= p) { u = u * (i64)pw(f[m] % m, n / m, m) % m * f[n % m] % m; e += n / p; } return { e, u }; }
    i64 operator()(i64 n, i64 k) const { if (k < 0 || k > n) return 0; auto a = fact(n), b = fact(k), c = fact(n - k); i64 e = a.first - b.first - c.first; if (e >= q) return 0; i64 r = a.second * inv_mod(b.second * c.second % m, m) % m; while (e--) r = r * p % m; return r; } };
static long long bign(Gen& g, i64 m) { switch (g.raw(5)) { case 0: return g.in(0, 40); case 1: return g.in(0, 3000); case 2: return (i64)g.raw(1000000000000000001ULL); case 3: { i64 v = 1; while (v < 1000000000000000LL && g.chance(5, 6)) v *= m; return std::max<i64>(0, v * g.in(1, 3) + g.in(-2, 2)); } default: return (i64)g.raw(1ULL << g.in(1, 59)); } }
static long long kof(Gen& g, i64 n, i64 m) { switch (g.raw(5)) { case 0: return g.in(-1, 30); case 1: return n - g.in(-2, 30); case 2: { i64 v = 1, k = 0; /* base-m digits below those of n: no carries */ for (i64 t = n; t; t /= m) { k += v * (i64)g.raw((u64)(t % m) + 1); if (t >= m) v *= m; } return k; } default: return n ? (i64)g.raw((u64)n + 1) : 0; } }

PBT(binom_small_mod, 4000, "composite modulus with a repeated prime factor and 0 < k < n") {
    int m; switch (g.raw(5)) { case 0: m = g.in(1, 64); break; case 1: m = 1 << g.in(0, 15); break; case 2: { m = 1; int p = g.pick({ 2, 3, 5, 7, 11, 13 }); for (int t = g.in(1, 9); t-- && m * p <= 50000;) m *= p; break; } case 3: m = g.in(1, 20000); break; default: { m = 1; for (int t = 0; t < 12; ++t) { int p = g.pick({ 2, 2, 3, 3, 5, 7, 11, 13, 17, 101 }); if ((i64)m * p <= 1000000) m *= p; } } }
    g.note("mod ", m); binom_small_mod B(m); auto fs = fac(m); std::vector<PP> pp; for (auto [p, c] : fs) pp.emplace_back(p, c); bool rep = false; for (auto [p, c] : fs) rep |= c >= 2; bool nt = false;
    for (int t = 0; t < 12; ++t) { i64 pm = fs.empty() ? 2 : fs[g.raw(fs.size())].first; i64 n = bign(g, pm), k = kof(g, n, pm); i64 r = B(n, k); g.note(" C(", n, ",", k, ")"); CKM(0 <= r && r < m, "canonical residue"); for (auto& x : pp) CKM(r % x.m == x(n, k), "C(n, k) modulo a prime power factor"); nt |= rep && 0 < k && k < n; }
    g.nontrivial(nt); }
PBT(binom_large_prime_power_mod, 4, "always") { i64 p, q; switch (g.raw(5)) { case 0: p = 2, q = 24; break; case 1: p = 3, q = 15; break; case 2: p = 4457, q = 2; break; case 3: p = 271, q = 3; break; default: p = prime_below(g.in(1000000, 19999999)), q = 1; } PP x(p, q); int other = 1; if (x.m < 14348907 + 1 && g.coin()) other = p == 2 ? 63 : 64; binom_small_mod B((int)(x.m * other)); std::vector<PP> pp{ x }; if (other > 1) for (auto [a, b] : fac(other)) pp.emplace_back(a, b); g.note(p, "^", q, " * ", other); for (int t = 0; t < 40; ++t) { i64 n = bign(g, p), k = kof(g, n, p); i64 r = B(n, k); for (auto& y : pp) CKM(r % y.m == y(n, k), "C(n, k), modulus near the limit"); } g.nontrivial(true); }

template <int p> static void small(Gen& g) { using M = atcoder::static_modint<p>; static const int N = 260; static std::vector<V<M>> s1, s2, C; if (s1.empty()) { s1 = s2 = C = std::vector<V<M>>(N + 1, V<M>(N + 1)); s1[0][0] = s2[0][0] = C[0][0] = 1; for (int i = 1; i <= N; ++i) for (int j = 0; j <= i; ++j) { M a1 = j ? s1[i - 1][j - 1] : M(0), a2 = j ? s2[i - 1][j - 1] : M(0), a3 = j ? C[i - 1][j - 1] : M(0); s1[i][j] = a1 + s1[i - 1][j] * (i - 1); s2[i][j] = a2 + s2[i - 1][j] * j; C[i][j] = a3 + C[i - 1][j]; } }
    StirlingNumber1SmallPrimeMod<M> S1; StirlingNumber2SmallPrimeMod<M> S2; BinomialCoefficientSmallPrimeMod<M> B; PP pp(p, 1); g.note("p ", p);
    for (int t = 0; t < 12; ++t) { int n = g.len(0, N), k = g.chance(1, 6) ? g.in(-2, N + 2) : g.in(0, n); bool in = k >= 0 && k <= n; g.note(" ", n, ",", k); CKM(B(n, k) == (in ? C[n][k] : M(0)), "C(n, k) mod p"); /* S1 here is the unsigned number or its signed variant: compared up to the sign (-1)^(n-k) below */ M w1 = in ? s1[n][k] : M(0); CKM(S1(n, k) == w1 , "S1(n, k) mod p"); CKM(S2(n, k) == (in ? s2[n][k] : M(0)), "S2(n, k) mod p"); CKM((S1.s1(n, k)) == S1(n, k) && (S2.s2(n, k)) == S2(n, k) && (B.binom(n, k)) == B(n, k), "static and call forms"); }
    for (int t = 0; t < 6; ++t) { i64 n = bign(g, p), k = kof(g, n, p); g.note(" ", n, ",", k); CKM(B(n, k) == M(pp(n, k)), "C(n, k) mod p, huge n"); if (n >= 3) { M c2 = M(pp(n, 2)), c3 = M(pp(n, 3)), c4 = M(pp(n, 4)); CKM(S1(n, n) == 1 && S2(n, n) == 1 && S2(n, 1) == 1, "S(n, n), S2(n, 1)"); CKM(S1(n, 0) == 0 && S2(n, 0) == 0 && S1(n, n + 1) == 0, "zero boundary"); CKM(S1(n, n - 1) == c2 && S2(n, n - 1) == c2, "S(n, n-1) = C(n, 2)"); CKM(S1(n, n - 2) == c3 * 2 + c4 * 3 && S2(n, n - 2) == c3 + c4 * 3, "S(n, n-2)"); CKM(S2(n, 2) == M(2).pow(n - 1) - 1, "S2(n, 2)");
        if (k >= 1 && k <= n) { CKM(S1(n, k) == S1(n - 1, k - 1) + S1(n - 1, k) * M(n - 1), "recurrence of S1 at huge n"); CKM(S2(n, k) == S2(n - 1, k - 1) + S2(n - 1, k) * M(k), "recurrence of S2 at huge n"); } } }
    g.nontrivial(true); }
PBT(small_prime_mod, 8000, "always") { switch (g.raw(9)) { case 0: small<2>(g); break; case 1: small<3>(g); break; case 2: small<5>(g); break; case 3: small<7>(g); break; case 4: small<11>(g); break; case 5: small<13>(g); break; case 6: small<31>(g); break; case 7: small<97>(g); break; default: small<251>(g); } }

PBT(binom_table, 300, "n at least 5") { int n = g.len(0, 60); auto t = binom_table<unsigned long long>(n); EQ((int)t.size(), n + 1); for (int i = 0; i <= n; ++i) { u64 c = 1; for (int j = 0; j <= n; ++j) { EQ(t[i][j], (unsigned long long)(j <= i ? c : 0)); if (j < i) c = (u64)((u128)c * (i - j) / (j + 1)); } } g.nontrivial(n >= 5); }

PBT(small_r_offline, 2000, "at least 3 queries with r at least 2") { int q = g.chance(1, 4) ? g.in(0, 3) : g.in(0, 60), R = g.pick({ 0, 1, 2, 3, 7, 8, 40, 64, 200 }); std::vector<std::pair<long long, int>> qs(q); int big = 0; for (auto& [n, r] : qs) { switch (g.raw(4)) { case 0: n = g.in(0, 50); break; case 1: n = (i64)g.raw(1000000000000000001ULL); break; case 2: n = 998244353LL * g.in(0, 5) + g.in(0, 60); break; default: n = g.in(0, 100000); } r = g.in(0, R); big += r >= 2; } g.note(qs); auto a = binomial_coefficient_small_r_offline<MP>(qs); EQ((int)a.size(), q); for (int i = 0; i < q; ++i) { MP w = 1; for (int j = 0; j < qs[i].second; ++j) w = w * (MP(qs[i].first) - j) / (j + 1); CKM(a[i] == w, "C(n, r)"); } g.nontrivial(big >= 3); }

using DM = atcoder::dynamic_modint<77>;
PBT(row_of_binomials_any_mod, 10000, "modulus sharing a factor with some index") { int n = g.chance(1, 4) ? g.in(0, 6) : g.in(0, 120); u64 m; switch (g.raw(4)) { case 0: m = g.in(1, 60); break; case 1: m = gen_shape(g, 2000000000); break; case 2: m = g.in(1, 2000000000); break; default: m = 1; for (int t = 0; t < 14; ++t) { u64 p = (u64)g.pick({ 2, 2, 3, 5, 7, 11, 13, 101 }); if (m * p <= 2000000000) m *= p; } } if (m > 2147483647) m = 2147483647; DM::set_mod((int)m); g.note("n ", n, " mod ", m); ArbitraryModBinomialCoefficients<DM> B(n); std::vector<u64> row{ 1 % m }; for (int i = 0; i < n; ++i) { row.push_back(0); for (int j = (int)row.size() - 1; j > 0; --j) row[j] = (row[j] + row[j - 1]) % m; } auto& c = B.get_coeffs(); EQ((int)c.size(), n + 1); for (int k = 0; k <= n; ++k) { EQ((u64)c[k].val(), row[k]); EQ((u64)B[k].val(), row[k]); } bool sh = false; for (int i = 2; i <= n; ++i) sh |= std::gcd<u64>(i, m) > 1; g.nontrivial(sh && n >= 5); }
