#include "large.hpp"
#include "poly.hpp"
#include <optional>
#include <deque>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/math/sum_i^d_r^i.hpp"
using namespace hv; using namespace suisen; using MP = atcoder::modint998244353; using F1 = FPS<MP>; using F2 = FormalPowerSeries<MP>;
struct Init { Init() { F1::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); } } init_;
template <class A> static V<MP> v(const A& a) { return V<MP>(a.begin(), a.end()); }
#define EACH(fn) do { if (g.coin()) fn<F1>(g); else fn<F2>(g); } while (0)
static V<MP> mulc(const V<MP>& a, const V<MP>& b, int n) { return pfit(atcoder::convolution(a, b), n); }
template <class F> static void egf(Gen& g) {
    int n = g.in(20000, 40000); if (g.chance(1, 3)) n = 32768 + g.in(-2, 1); Bulk b(g); g.nontrivial(); g.note("n ", n); V<MP> f(n + 2, 1), fi(n + 2); for (int i = 1; i < n + 2; ++i) f[i] = f[i - 1] * i; for (int i = 0; i < n + 2; ++i) fi[i] = f[i].inv();
    { auto B = v(bell_number<F>(n)); EQ((int)B.size(), n + 1); V<MP> e(n + 1); for (int i = 0; i <= n; ++i) e[i] = B[i] * fi[i]; CK(B[0] == MP(1)); CKM(pdiff(e) == mulc(e, fi, n), "Bell numbers"); }
    { auto B = v(bernoulli_number<F>(n)); EQ((int)B.size(), n + 1); V<MP> e(n + 1); for (int i = 0; i <= n; ++i) e[i] = B[i] * fi[i]; CKM(mulc(e, V<MP>(fi.begin() + 1, fi.end()), n + 1) == pfit(V<MP>{ 1 }, n + 1), "Bernoulli numbers"); }
    { auto p = v(partition_number<F>(n)); EQ((int)p.size(), n + 1); V<MP> w(n + 1); w[0] = 1; for (int i = 1; i <= n; ++i) for (int k = 1; k * (3 * k - 1) / 2 <= i; ++k) { MP t = w[i - k * (3 * k - 1) / 2]; if (k * (3 * k + 1) / 2 <= i) t += w[i - k * (3 * k + 1) / 2]; w[i] += k & 1 ? t : -t; } CKM(p == w, "partition numbers"); }
    { auto r = montmort_number<MP>(n); MP d = 1; for (int i = 0; i <= n; ++i) { if (i) d = d * i + (i & 1 ? -1 : 1); CKM(r[i] == d, "derangements"); } }
    { auto s = v(stirling_number1<F>(n)), r = v(stirling_number1_reversed<F>(n)), t = v(stirling_number2<F>(n)); EQ((int)s.size(), n + 1); EQ((int)t.size(), n + 1); std::reverse(r.begin(), r.end()); CK(r == s); for (int q = 0; q < 3; ++q) { MP x = (i64)b.raw(P), y = 1, z = 0, w = 1; for (int i = 0; i < n; ++i) y *= x + i; CKM(peval(s, x) == y, "first kind at a random point"); for (int k = 0; k <= n; ++k) z += t[k] * w, w *= x - k; CKM(z == x.pow(n), "second kind at a random point"); } }
    { auto e = v(eulerian_number<F>(n)); EQ((int)e.size(), n); for (int q = 0; q < 2; ++q) { MP x = (i64)b.raw(P), c = 1, s = 0; for (int i = 0; i < n; ++i) c *= x - i; c *= fi[n]; /* C(x, n) */ for (int k = 0; k < n; ++k) { s += e[k] * c; c = c * (x + k + 1) / (x + k + 1 - n); } CKM(s == x.pow(n), "Worpitzky's identity"); } }
}
PBT(sequences_large, 2, "every case: tens of thousands of terms") { EACH(egf); }
template <class F> static void sums(Gen& g) {
    int n = g.in(1, 1000000000), k = g.in(5000, 20000); Bulk b(g); g.nontrivial(); g.note("n ", n, " k ", k); n = g.in(1000, 5000); auto s = v(sum_of_powers<F>(n, k)); EQ((int)s.size(), k + 1); for (int q = 0; q < 20; ++q) { int e = b.raw(k + 1); MP w = 0; for (int x = 1; x <= n; ++x) w += MP(x).pow(e); CKM(s[e] == w, "power sum"); }
    int N = g.in(200000, 1000000); u64 e = b.next() >> 1; auto p = powers<MP>(N, e); EQ((int)p.size(), N + 1); for (int q = 0; q < 2000; ++q) { int i = b.raw(N + 1); CK(p[i] == MP(i).pow(i64(e % (P - 1)) + (e ? P - 1 : 0))); }
    int m = g.in(3000, 6000); V<MP> xs(m); for (auto& x : xs) x = (i64)b.raw(P); auto d = v(product_of_differences<F, MP>(xs)); EQ((int)d.size(), m); for (int q = 0; q < 30; ++q) { int i = b.raw(m); MP t = 1; for (int j = 0; j < m; ++j) if (j != i) t *= xs[i] - xs[j]; CKM(d[i] == t, "product of differences"); }
    int D = g.in(10000, 50000); MP r = g.chance(1, 4) ? MP(1) : MP((i64)b.raw(P)); sum_i_i_pow_d_r_pow_i<MP> S(D, r); int M = 2 * D; V<MP> pre(M + 1); MP rp = 1; for (int i = 0; i < M; ++i, rp *= r) pre[i + 1] = pre[i] + MP(i).pow(D) * rp; for (int q = 0; q < 10; ++q) { int t = b.raw(M + 1); CKM(S.sum(t) == pre[t], "sum of i^d r^i"); }
}
PBT(sums_large, 2, "every case: thousands of terms") { EACH(sums); }
PBT(binomials_large, 2, "every case: tens of thousands of queries") {
    Bulk b(g); g.nontrivial(); int q = 6000, R = g.pick(std::vector<int>{ 200, 1000 }); std::vector<std::pair<long long, int>> qs(q); for (auto& [n, r] : qs) n = b.raw(4) ? b.range(0, 1000000000000000000LL) : b.range(0, 2000), r = b.raw(R + 1); auto a = binomial_coefficient_small_r_offline<MP>(qs); EQ((int)a.size(), q); for (int t = 0; t < 2000; ++t) { int i = b.raw(q); auto [n, r] = qs[i]; MP w = n >= r ? 1 : 0; if (n >= r) { MP num = 1, den = 1; for (int j = 0; j < r; ++j) num *= MP(n - j), den *= j + 1; w = num / den; } CK(a[i] == w); }
}
