#include "num.hpp"
#include <atcoder/modint>
#include "library/math/factorial.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/util.hpp"
using namespace hv;
static u64 cb(int n, int r, u64 p = P) { if (r < 0 || r > n || n < 0) return 0; static std::map<u64, std::vector<std::vector<u64>>> c; auto& t = c[p]; while ((int)t.size() <= n) { int k = t.size(); t.emplace_back(k + 1, 1 % p); for (int i = 1; i < k; ++i) t[k][i] = (t[k - 1][i - 1] + t[k - 1][i]) % p; } return t[n][r]; }
template <class M> static void facs(Gen& g, int lim) { const u64 p = M::mod(); suisen::factorial<M> f = g.coin() ? suisen::factorial<M>() : suisen::factorial<M>(g.size(0, lim)); for (int q = 6; q--;) { int n = g.size(0, lim), r = g.in(-2, n + 2); u64 w = 1 % p; for (int i = 1; i <= n; ++i) w = w * i % p; EQ((u64)f.fac(n).val(), w); EQ((u64)f(n).val(), w); CK(f.fac_inv(n) * f.fac(n) == 1); EQ((u64)f.binom(n, r).val(), cb(n, r, p)); u64 pr = r < 0 || r > n ? 0 : 1 % p; for (int i = 0; i < r && r <= n; ++i) pr = pr * (n - i) % p; EQ((u64)f.perm(n, r).val(), pr); int a = g.in(-1, n), b = g.in(-1, n); u64 po = a < 0 || b < 0 || a + b > n ? 0 : cb(n, a, p) * cb(n - a, b, p) % p; EQ((u64)f.polynom(n, a, b).val(), po); EQ((u64)f.polynom(n, a).val(), cb(n, a, p)); g.nontrivial(n >= 10 && a > 0 && b > 0 && a + b < n); } EQ((u64)f.binom(-1, 0).val(), 0ULL); EQ((u64)f.perm(-3, 1).val(), 0ULL); EQ((u64)f.polynom(-1, 0).val(), 0ULL); }
PBT(factorial, 4000, "a proper trinomial of n at least 10", 8, 12) { if (g.coin()) facs<atcoder::modint998244353>(g, 200); else facs<atcoder::modint1000000007>(g, 200); }
template <int MOD, int B> static void emb(Gen& g) { std::ostringstream o; suisen::write_embeded_factorial<MOD, B>(o); auto s = o.str(); auto i = s.find("F[D]{"); CK(i != std::string::npos); std::vector<i64> v; i += 5; while (s[i] != '}') { if (isdigit(s[i])) { i64 x = 0; while (isdigit(s[i])) x = x * 10 + s[i++] - '0'; v.push_back(x); } else ++i; } EQ((int)v.size(), (MOD - 1) / B + 1); u64 f = 1; for (int k = 0, n = 0; k < (int)v.size(); ++k) { EQ((u64)v[k], f); for (int j = 0; j < B; ++j) f = f * ++n % MOD; } g.nontrivial(MOD > 100); }
PBT(factorial_embedded, 20, "modulus above 100") { switch (g.raw(6)) { case 0: emb<7, 2>(g); break; case 1: emb<7, 3>(g); break; case 2: emb<7, 7>(g); break; case 3: emb<101, 10>(g); break; case 4: emb<1000003, 1000>(g); break; default: emb<9973, 97>(g); } }
template <class M> static const std::vector<u64>& lf_ref(int n) { static std::vector<u64> t{ 1 }; const u64 p = M::mod(); while ((int)t.size() <= n) t.push_back(t.back() * t.size() % p); return t; }
template <class M> static void lfac(Gen& g, int lim) { using F = suisen::factorial_large<M>; const i64 p = M::mod(); F::threshold = g.coin() ? -1 : g.in(0, 3000); auto& t = lf_ref<M>(lim); for (int q = 4; q--;) { i64 n = g.chance(1, 3) ? std::min<i64>(lim, 512 * g.in(0, 8) + g.in(-2, 2)) : g.chance(1, 4) ? lim - g.in(0, 600) : g.range(0, lim); if (n < 0) n = 0; g.note("mod ", p, " n ", n, " threshold ", F::threshold); EQ((u64)F::fac(n).val(), t[n]); EQ(u64((u128)F::fac_inv(n).val() * t[n] % p), 1ULL % p); int r = g.range(-1, n + 1); auto iv = [&](u64 x) { return pw(x, p - 2, p); }; u64 b = r < 0 || r > n ? 0 : u64((u128)t[n] * iv(t[r]) % p * iv(t[n - r]) % p); EQ((u64)F::binom(n, r).val(), b); EQ((u64)F::perm(n, r).val(), r < 0 || r > n ? 0 : u64((u128)t[n] * iv(t[n - r]) % p)); int a = g.range(0, n), c = g.range(0, n - a); EQ((u64)F::polynom(n, a).val(), u64((u128)t[n] * iv(t[a]) % p * iv(t[n - a]) % p)); EQ((u64)F::polynom(n, a, c, int(n - a - c)).val(), u64((u128)t[n] * iv(t[a]) % p * iv(t[c]) % p * iv(t[n - a - c]) % p)); EQ((u64)F::polynom(n, (int)n, 1).val(), 0ULL); EQ((u64)F::polynom(n, a, c).val(), u64((u128)t[n] * iv(t[a]) % p * iv(t[c]) % p * iv(t[n - a - c]) % p)); g.nontrivial(n > F::threshold); } EQ((u64)F::fac(p).val(), 0ULL); EQ((u64)F::fac(p + (i64)g.raw(1LL << 40)).val(), 0ULL); }
PBT(factorial_large_small_primes, 500, "factorial computed by block products") { switch (g.raw(5)) { case 0: lfac<atcoder::static_modint<10007>>(g, 10006); break; case 4: lfac<atcoder::static_modint<9973>>(g, 9972); break; case 1: lfac<atcoder::static_modint<65537>>(g, 65536); break; case 2: lfac<atcoder::static_modint<7340033>>(g, 200000); break; default: lfac<atcoder::static_modint<1000003>>(g, 1000002); } }
// p of the usual size: checked against n! computed directly below 3*10^6 and through Wilson's theorem near p
template <class M> static void lbig(Gen& g) { using F = suisen::factorial_large<M>; const i64 p = M::mod(); F::threshold = 1000; for (int q = 3; q--;) { if (g.coin()) { int n = g.in(0, 300000); EQ((u64)F::fac(n).val(), lf_ref<M>(300000)[n]); } else { int k = g.in(1, 300000); /* (p-k)! (k-1)! = (-1)^k */ u64 f = F::fac(p - k).val(); u64 pr = u64((u128)f * lf_ref<M>(300000)[k - 1] % p); EQ(pr, k % 2 ? (u64)p - 1 : 1ULL); } i64 n = g.range(1000, p - 2); EQ(u64((u128)F::fac(n).val() * u64(n + 1) % p), (u64)F::fac(n + 1).val()); } g.nontrivial(); }
PBT(factorial_large, 60, "every case") { lbig<atcoder::modint1000000007>(g); }
PBT(binomial_sums, 3000, "a proper prefix of a row m at least 5") { using M = atcoder::modint998244353; int L = g.pick({ 6, 30, 120 }); M r = g.chance(1, 5) ? M(-1) : g.chance(1, 3) ? M(1) : M((i64)g.range(-3, 5)); if (r + 1 == 0) r = -1; int q = g.in(0, 12); std::vector<std::pair<int, int>> qs(q); std::vector<std::tuple<int, int, int>> qt(q); for (auto& [n, m] : qs) m = g.in(0, L), n = g.in(-2, m + 2); for (auto& [a, b, m] : qt) m = g.in(0, L), a = g.in(-2, m + 2), b = g.in(a - 1, m + 3); g.note(qs, " r ", r.val()); auto f = [&](int a, int b, int m) { u64 s = 0, pr = 1; for (int i = 0; i <= b && i <= m; ++i) { if (i >= a) s = (s + pr * cb(m, i)) % P; pr = pr * r.val() % P; } return s; }; auto x = suisen::binom_sum_prefix<M>(qs, r); EQ((int)x.size(), q); for (int i = 0; i < q; ++i) { EQ((u64)x[i].val(), f(0, qs[i].first, qs[i].second)); g.nontrivial(qs[i].second >= 5 && qs[i].first > 0 && qs[i].first < qs[i].second); } auto y = suisen::binom_sum<M>(qt, r); EQ((int)y.size(), q); for (int i = 0; i < q; ++i) { auto [a, b, m] = qt[i]; EQ((u64)y[i].val(), f(a, b, m)); } }
PBT(random_walks, 4000, "a reachable non-origin point") { using M = atcoder::modint998244353; int n = g.in(0, 12), x = g.in(-13, 13), y = g.in(-13, 13); g.note(n, " ", x, " ", y); std::map<std::pair<int, int>, u64> d{ { { 0, 0 }, 1 } }; std::map<int, u64> e{ { 0, 1 } }; for (int i = 0; i < n; ++i) { std::map<std::pair<int, int>, u64> nd; for (auto& [k, v] : d) for (auto [a, b] : { std::pair{ 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } }) nd[{ k.first + a, k.second + b }] += v; d = nd; std::map<int, u64> ne; for (auto& [k, v] : e) ne[k + 1] += v, ne[k - 1] += v; e = ne; } EQ((u64)suisen::random_walk_1d<M>(n, x).val(), e.count(x) ? e[x] : 0); u64 w = d.count({ x, y }) ? d[{ x, y }] : 0; EQ((u64)suisen::random_walk_2d<M>(n, x, y).val(), w); auto bn = [&](int k) { return M(cb(n, k)); }; EQ((u64)suisen::random_walk_1d<M>(n, x, bn).val(), e.count(x) ? e[x] : 0); EQ((u64)suisen::random_walk_2d<M>(n, x, y, bn).val(), w); g.nontrivial(w && (x || y)); }
