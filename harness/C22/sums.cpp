#include "num.hpp"
#include <atcoder/modint>
#include "library/number/mobius_function.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/kth_root_round.hpp"
using namespace hv;
static int mu(i64 n) { int r = 1; for (auto [p, c] : fac(n)) { if (c > 1) return 0; r = -r; } return r; }
template <unsigned N> static void mob(Gen& g) { static suisen::MobiusFunction<N> m; for (int q = 20; q--;) { unsigned n = 1 + g.raw(N); EQ(m(n), mu(n)); EQ(m[n], mu(n)); EQ(m.mobius(n), mu(n)); auto r = fac(n); EQ(m.is_prime(n), r.size() == 1 && r[0].second == 1); if (n >= 2) EQ((i64)m.min_prime_factor(n), r[0].first); auto f = m.factorize(n); EQ(f.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) { EQ((i64)f[i].first, r[i].first); EQ(f[i].second, r[i].second); } g.nontrivial(r.size() >= 2); } CK(!m.is_prime(0)); if (g.chance(1, 20)) for (unsigned n = 1; n <= N; ++n) CKM(m(n) == mu(n), n); }
PBT(mobius_function, 400, "argument with two distinct primes") { switch (g.raw(5)) { case 0: mob<1>(g); break; case 1: mob<4>(g); break; case 2: mob<30>(g); break; case 3: mob<1000>(g); break; default: mob<5000>(g); } }
// prefix tables used as oracles
static const int LIM = 200000;
struct Tab { std::vector<i64> m, t, sf; Tab() : m(LIM + 1), t(LIM + 1), sf(LIM + 1) { std::vector<int> mu_(LIM + 1, 1), ph(LIM + 1); std::vector<char> c(LIM + 1); std::iota(ph.begin(), ph.end(), 0); for (int p = 2; p <= LIM; ++p) if (!c[p]) for (int q = p; q <= LIM; q += p) { c[q] = 1; mu_[q] = q / p % p == 0 ? 0 : -mu_[q]; ph[q] = ph[q] / p * (p - 1); } for (int i = 1; i <= LIM; ++i) m[i] = m[i - 1] + mu_[i], t[i] = t[i - 1] + ph[i], sf[i] = sf[i - 1] + (mu_[i] != 0); } };
static Tab& tab() { static Tab t; return t; }
PBT(prefix_sums, 3000, "n > 1000") {
    int n = g.pick<int>({ 30, 1000, 20000, LIM }); n = g.chance(1, 4) ? (int)g.raw(n + 1) : g.in(0, n); if (g.chance(1, 8)) n = g.in(0, 40); if (g.chance(1, 8)) { int s = g.in(1, 440); n = std::max(0, s * s + g.in(-1, 1)); } g.note(n); auto& t = tab(); EQ(suisen::count_square_free(n), t.sf[n]); if (n == 0) return; suisen::SumOfMobiusFunction<i64> m(n); suisen::SumOfTotientFunction<i64> p(n); suisen::SumOfTotientFunction<atcoder::modint998244353> pm(n); EQ(m(), t.m[n]); EQ(p(), t.t[n]); for (int q = 10; q--;) { i64 d = g.chance(1, 3) ? g.range(1, 40) : g.range(1, n + 2); EQ(m(d), t.m[n / d]); EQ(p(d), t.t[n / d]); EQ(pm(d).val(), u64(t.t[n / d]) % P); } g.nontrivial(n > 1000);
}
PBT(prefix_sums_small_exhaustive, 1, "every n below 3000") { auto& t = tab(); for (int n = 1; n < 3000; ++n) { CKM(suisen::count_square_free(n) == t.sf[n], n); suisen::SumOfMobiusFunction<i64> m(n); suisen::SumOfTotientFunction<i64> p(n); for (int d = 1; d <= n; d += 1 + d / 8) { CKM(m(d) == t.m[n / d], n); CKM(p(d) == t.t[n / d], n); } } EQ(suisen::count_square_free(-5), 0LL); g.nontrivial(); }
// larger n against direct Moebius summation: sum_{d<=sqrt n} mu(d) floor(n/d^2), and sum_k Phi(n/k) = n(n+1)/2, sum_k M(n/k) = 1
PBT(prefix_sums_large, 40, "n > 10^8") {
    i64 n = g.range(1, g.pick<i64>({ 1000000, 1000000000LL, 30000000000LL })); if (g.chance(1, 3)) { i64 s = g.range(1, 170000); n = std::max<i64>(1, s * s + g.in(-1, 1)); } g.note(n); auto& t = tab(); i64 w = 0; for (i64 d = 1; d * d <= n; ++d) w += (t.m[d] - t.m[d - 1]) * (n / (d * d)); EQ(suisen::count_square_free(n), w); if (n <= 300000000) { suisen::SumOfMobiusFunction<i64> m(n); suisen::SumOfTotientFunction<atcoder::modint998244353> p(n); i64 sm = 0; u64 sp = 0; for (i64 l = 1; l <= n;) { i64 q = n / l, r = n / q; if (q <= LIM) { EQ(m(l), t.m[q]); EQ(p(r).val(), u64(t.t[q]) % P); } sm += m(r) * (r - l + 1); sp = (sp + (u64)p(l).val() * u64((r - l + 1) % (i64)P)) % P; l = r + 1; } EQ(sm, 1LL); EQ(sp, u64(u128(n) * (n + 1) / 2 % P)); } g.nontrivial(n > 100000000);
}
template <class T> static void quot(Gen& g, i64 n) { std::vector<T> w; for (i64 l = 1; l <= n;) { i64 q = n / l, r = n / q; w.push_back((T)q); l = r + 1; } std::reverse(w.begin(), w.end()); EQ((i64)suisen::quotient_num<T>((T)n), (i64)w.size()); EQ(suisen::enumerate_quotients<T>((T)n), w); std::vector<T> f; suisen::foreach_quotients<T>((T)n, [&](T v) { f.push_back(v); }); EQ(f, w); auto r = suisen::quotient_ranges<T>((T)n); EQ(r.size(), w.size()); T nx = 1; for (size_t i = 0; i < r.size(); ++i) { auto [lo, hi, q] = r[i]; EQ(lo, nx); EQ(q, (T)(n / lo)); EQ(q, (T)(n / hi)); nx = hi + 1; CK(hi == (T)n || (i64)(n / nx) < (i64)q); } EQ((i64)nx, n + 1); }
PBT(quotients, 800, "at least 100 distinct quotients") {
    i64 n; switch (g.raw(6)) { case 0: n = g.in(0, 100); break; case 1: { i64 s = g.range(1, 46340); n = s * s + g.in(-1, 1); break; } case 2: { i64 s = g.range(1, 46339); n = s * (s + 1) + g.in(-1, 1); break; } case 3: n = g.edgy(0, 2147483646); break; case 4: n = g.range(0, 1000000); break; default: n = g.range(0, 2000000000LL); } g.note(n); if (n <= 2147483646 && g.coin()) quot<int>(g, n); else quot<i64>(g, n); g.nontrivial(n > 2500);
}
PBT(multiple_quotients, 2500, "at least three values and 20 ranges") {
    int k = g.in(1, 4); auto vs = g.vec<i64>(k, 0, g.pick<int>({ 10, 200, 3000 })); g.note(vs); auto chk = [&](auto&& r) { i64 mx = *std::max_element(vs.begin(), vs.end()), l = 1; for (size_t i = 0; i < r.size(); ++i) { auto& [lo, hi, q] = r[i]; EQ((i64)lo, l); CK(hi >= lo); for (int j = 0; j < k; ++j) { EQ((i64)q[j], vs[j] / lo); EQ((i64)q[j], vs[j] / std::min<i64>(hi, mx + 5)); } l = (i64)hi + 1; if (i + 1 < r.size()) { bool d = false; for (int j = 0; j < k; ++j) d |= vs[j] / l != q[j]; CKM(d, "range not maximal"); } } CK(mx == 0 ? r.empty() : l > mx); g.nontrivial(k >= 3 && r.size() >= 20); }; chk(suisen::multiple_quotients_ranges(vs)); if (k == 2) chk(suisen::multiple_quotients_ranges(std::array<i64, 2>{ vs[0], vs[1] })); if (k == 3) chk(suisen::multiple_quotients_ranges(std::array<int, 3>{ (int)vs[0], (int)vs[1], (int)vs[2] }));
}
static i64 fl(i64 a, i64 b) { i64 q = a / b; return q - (a % b != 0 && (a < 0) != (b < 0)); }
static i64 ce(i64 a, i64 b) { return -fl(-a, b); }
// every (n, q, bound) triple of a small box: { x | n/x rounds to q } is an interval of the stated end points
PBT(denominators_exhaustive, 1, "the whole box") {
    const int B = 24, X = 40; for (i64 n = -B; n <= B; ++n) for (i64 q = -B; q <= B; ++q) for (i64 bd : { 1, 2, 3, 5, 9, 23, 24, 25, 40 }) { auto br = [&](auto f, bool pos) { std::optional<std::pair<i64, i64>> r; for (i64 a = 1; a <= bd && a <= X; ++a) { i64 x = pos ? a : -a; if (f(n, x) == q) { if (!r) r = std::pair{ x, x }; r->first = std::min(r->first, x); r->second = std::max(r->second, x); } } return r; }; auto s = std::to_string(n) + "/x=" + std::to_string(q) + " bound " + std::to_string(bd); CKM(suisen::fld_denominators_positive<i64>(n, q, bd) == br(fl, true), s); CKM(suisen::cld_denominators_positive<i64>(n, q, bd) == br(ce, true), s); CKM(suisen::fld_denominators_negative<i64>(n, q, -bd) == br(fl, false), s); CKM(suisen::cld_denominators_negative<i64>(n, q, -bd) == br(ce, false), s); } g.nontrivial();
}
PBT(denominators_large, 20000, "a non-empty interval for |n| > 10^9") {
    i64 n = g.edgy(-1000000000000000000LL, 1000000000000000000LL), x0 = g.edgy(1, 1000000000000000000LL); int kind = g.raw(4); bool pos = kind < 2, flo = kind % 2 == 0; i64 x = pos ? x0 : -x0; auto f = [&](i64 d) { return flo ? fl(n, d) : ce(n, d); }; i64 q = g.chance(1, 4) ? g.edgy(-1000000000000000000LL, 1000000000000000000LL) : f(x); g.note(n, " q ", q, " kind ", kind); auto r = kind == 0 ? suisen::fld_denominators_positive<i64>(n, q) : kind == 1 ? suisen::cld_denominators_positive<i64>(n, q) : kind == 2 ? suisen::fld_denominators_negative<i64>(n, q) : suisen::cld_denominators_negative<i64>(n, q); if (f(x) == q) { CKM(r.has_value(), "interval reported empty"); CK(r->first <= x && x <= r->second); } if (r) { auto [a, b] = *r; CK(a <= b && (pos ? a > 0 : b < 0)); EQ(f(a), q); EQ(f(b), q); if (a - 1 != 0 && !(pos ? false : a == INT64_MIN) && (pos ? a > 1 : true)) CK(f(a - 1) != q); if (!(pos && b == INT64_MAX) && b + 1 != 0) CK(f(b + 1) != q); g.nontrivial(std::abs(n) > 1000000000); }
}
static bool le_pow(u128 r, int k, u128 x) { u128 v = 1; for (int i = 0; i < k; ++i) { if (r && v > x / r) return false; v *= r; } return v <= x; }
template <class T> static void root(Gen& g, u64 x, int k) { T f = suisen::floor_kth_root<T>((T)x, k), c = suisen::ceil_kth_root<T>((T)x, k); CKM(f >= 0 && le_pow(f, k, x), f); CKM(!le_pow((u128)f + 1, k, x), f); bool ex = x == 0 || (le_pow(f, k, x) && !le_pow(f, k, x - 1)); CKM(c == f + !ex, c); }
PBT(kth_root, 40000, "k at least 2 and x at least 2^32") {
    int k = g.chance(1, 3) ? 2 : g.chance(1, 3) ? 3 : g.in(1, 70); u64 x; if (g.coin()) x = g.u64any(); else { u64 b = k == 1 ? g.u64any() : (u64)powl(18446744073709551615.0L, 1.0L / k); b = g.chance(1, 3) ? b - std::min<u64>(b, g.raw(3)) : g.raw(b + 1); if (!le_pow(b, k, ~0ULL)) --b; x = 1; for (int i = 0; i < k; ++i) x *= b; x += g.raw(3) - 1; } g.note(x, " k ", k); root<u64>(g, x, k); if (x < 1ULL << 63) root<i64>(g, x, k); if (x < 1ULL << 31) root<int>(g, x, k); g.nontrivial(k >= 2 && x >> 32);
}
