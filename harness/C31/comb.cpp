// Combinatorial sequences against their recurrences.
#include "poly.hpp"
#include <optional>
#include <algorithm>
#include <deque>
#include <map>
#include <numeric>
#include <tuple>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/math/sum_i^d_r^i.hpp"
using namespace hv;
using namespace suisen;
using MP = atcoder::modint998244353;
using F1 = FPS<MP>;
using F2 = FormalPowerSeries<MP>;
static const int PM = 998244353;
struct Init { Init() { F1::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); } } init_;
template <class A> static V<MP> v(const A& a) { return V<MP>(a.begin(), a.end()); }
#define EACH(fn) do { if (g.coin()) fn<F1>(g); else fn<F2>(g); } while (0)
static int sz(Gen& g) { return g.chance(1, 3) ? g.in(0, 8) : g.chance(1, 2) ? g.in(30, 70) : g.in(0, 200); }

template <class F> static void egf(Gen& g) {
    int n = sz(g); g.note("n ", n); n = std::min(n, 130);
    std::vector<V<MP>> C(n + 3, V<MP>(n + 3)); for (int i = 0; i < n + 3; ++i) { C[i][0] = 1; for (int j = 1; j <= i; ++j) C[i][j] = C[i - 1][j - 1] + C[i - 1][j]; }
    { V<MP> B(n + 1); B[0] = 1; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) B[i + 1] += C[i][j] * B[j]; auto r = v(bell_number<F>(n)); EQ((int)r.size(), n + 1); CKM(r == B, "Bell numbers"); }
    { V<MP> B(n + 1); B[0] = 1; for (int i = 1; i <= n; ++i) { for (int j = 0; j < i; ++j) B[i] -= C[i + 1][j] * B[j]; B[i] /= i + 1; } auto r = v(bernoulli_number<F>(n)); EQ((int)r.size(), n + 1); CKM(r == B, "Bernoulli numbers"); }
    { V<MP> w(n + 1); w[0] = 1; for (int x = 1; x <= n; ++x) for (int s = x; s <= n; ++s) w[s] += w[s - x]; auto r = v(partition_number<F>(n)); EQ((int)r.size(), n + 1); CKM(r == w, "partition numbers"); }
    { auto r = montmort_number<MP>(n); EQ((int)r.size(), n + 1); MP f = 1, d = 1; for (int i = 0; i <= n; ++i) { if (i) { f *= i; d = d * i + (i & 1 ? -1 : 1); } CKM(r[i] == d, "derangement numbers"); } }
    g.nontrivial(n >= 10); }
PBT(exponential_generating_sequences, 1000, "at least 10 terms") { EACH(egf); }

template <class F> static void tri(Gen& g) {
    int n = std::min(sz(g), 150); g.note("n ", n); std::vector<V<MP>> s1(n + 1, V<MP>(n + 1)), s2 = s1, E(n + 1, V<MP>(n + 1)); s1[0][0] = s2[0][0] = 1;
    for (int i = 1; i <= n; ++i) for (int j = 0; j <= i; ++j) { s1[i][j] = (j ? s1[i - 1][j - 1] : MP(0)) + s1[i - 1][j] * (i - 1); s2[i][j] = (j ? s2[i - 1][j - 1] : MP(0)) + s2[i - 1][j] * j; }
    for (int i = 1; i <= n; ++i) for (int j = 0; j < i; ++j) E[i][j] = i == 1 ? MP(1) : (j ? E[i - 1][j - 1] * (i - j) : MP(0)) + E[i - 1][j] * (j + 1);
    CKM(v(stirling_number1<F>(n)) == s1[n], "Stirling numbers of the first kind"); { auto r = v(stirling_number1_reversed<F>(n)); std::reverse(r.begin(), r.end()); CKM(r == s1[n], "Stirling numbers of the first kind, reversed"); }
    CKM(v(stirling_number2<F>(n)) == s2[n], "Stirling numbers of the second kind");
    { auto a = stirling_number1_table<MP>(n), b = stirling_number2_table<MP>(n); EQ((int)a.size(), n + 1); EQ((int)b.size(), n + 1); for (int i = 0; i <= n; ++i) { CKM(a[i] == V<MP>(s1[i].begin(), s1[i].begin() + i + 1), "table of the first kind"); CKM(b[i] == V<MP>(s2[i].begin(), s2[i].begin() + i + 1), "table of the second kind"); } }
    if (n >= 1) { CKM(v(eulerian_number<F>(n)) == V<MP>(E[n].begin(), E[n].begin() + n), "Eulerian numbers"); auto t = eulerian_number_table<MP>(n); EQ((int)t.size(), n + 1); for (int i = 1; i <= n; ++i) CKM(t[i] == V<MP>(E[i].begin(), E[i].begin() + i), "table of Eulerian numbers"); }
    int k = g.in(0, n + 5); { auto r = stirling_number1_reversed<MP>((long long)n, k); EQ((int)r.size(), k + 1); for (int i = 0; i <= k; ++i) CKM(r[i] == (i <= n ? s1[n][n - i] : MP(0)), "S1[n, n-i] for small i"); }
    g.nontrivial(n >= 10); }
PBT(number_triangles, 1000, "n at least 10") { EACH(tri); }

// S1[n, n-i] as a polynomial in n of degree 2i: interpolate it from small n, compare for huge n
PBT(stirling1_huge_n, 4000, "n at least 10^9, k at least 3") { static const int K = 12; static std::vector<V<MP>> T; if (T.empty()) T = [] { int N = 2 * K + 1; std::vector<V<MP>> s(N + 1, V<MP>(N + 1)); s[0][0] = 1; for (int i = 1; i <= N; ++i) for (int j = 0; j <= i; ++j) s[i][j] = (j ? s[i - 1][j - 1] : MP(0)) + s[i - 1][j] * (i - 1); return s; }();
    long long n = g.coin() ? (long long)g.raw(1000000000000000001ULL) : g.coin() ? (1LL << g.in(0, 59)) + g.in(-1, 1) : (long long)PM * g.in(0, 1000000000) + g.in(0, 30); int k = g.in(0, K); g.note("n ", n, " k ", k); auto r = stirling_number1_reversed<MP>(n, k); EQ((int)r.size(), k + 1);
    for (int i = 0; i <= k; ++i) { MP w = 0; for (int a = 0; a <= 2 * i; ++a) { MP t = a >= i ? T[a][a - i] : MP(0); for (int b = 0; b <= 2 * i; ++b) if (b != a) t = t * (MP(n) - b) / (a - b); w += t; } CKM(r[i] == w, "S1[n, n-i], huge n"); } g.nontrivial(n >= 1000000000 && k >= 3); }

template <class F> static void sums(Gen& g) {
    int n = g.chance(1, 2) ? g.in(0, 60) : g.in(0, 3000), k = g.in(0, 70); g.note("n ", n, " k ", k); V<MP> w(k + 1); for (int x = 1; x <= n; ++x) { MP p = 1; for (int e = 0; e <= k; ++e, p *= x) w[e] += p; } CKM(v(sum_of_powers<F>(n, k)) == w, "power sums"); CKM(v(sum_of_powers<F>(n, k, v(bernoulli_number<F>(k + 1 + g.in(0, 20))))) == w, "power sums with a given table");
    u64 e = g.coin() ? (u64)g.in(0, 70) : g.u64any() >> 1; auto pw = powers<MP>(n, e); EQ((int)pw.size(), n + 1); for (int i = 0; i <= n; ++i) { MP b = i, r = 1; for (u64 t = e; t; t >>= 1, b *= b) if (t & 1) r *= b; CKM(pw[i] == r, "i^k"); }
    int m = g.len(0, 40); V<MP> xs(m); bool rep = g.coin(); for (auto& x : xs) x = rep ? MP(g.in(0, 30)) : MP((i64)g.raw(PM)); auto d = v(product_of_differences<F, MP>(xs)); EQ((int)d.size(), m); for (int i = 0; i < m; ++i) { MP t = 1; for (int j = 0; j < m; ++j) if (j != i) t *= xs[i] - xs[j]; CKM(d[i] == t, "product of differences"); }
    g.nontrivial(n >= 10 && k >= 5 && m >= 3); }
PBT(power_sums, 2000, "n at least 10, exponent at least 5, at least 3 points") { EACH(sums); }

PBT(sum_i_pow_d_r_pow_i, 8000, "d at least 1 and r not in {0,1}") { int d = g.chance(1, 3) ? g.in(0, 2) : g.in(0, 40); MP r = g.chance(1, 3) ? MP(g.in(-1, 2)) : MP((i64)g.raw(PM)); g.note("d ", d, " r ", r.val()); sum_i_i_pow_d_r_pow_i<MP> S(d, r);
    const int N = 200; V<MP> pre(N + 1); { MP rp = 1; for (int i = 0; i < N; ++i, rp *= r) pre[i + 1] = pre[i] + MP(i).pow(d) * rp; }
    // beyond the table: sum_{i<n} i^d r^i = r^n p(n) + c for r != 0, 1, else a polynomial of degree d + 1; values for n < d + 2 determine it once c is known from the infinite sum's functional equation
    if (r != 1) { /* c = "sum over all i" satisfies: with A_j = sum_i i^j r^i, A_j (1-r) = r * sum_{t<j} C(j,t) A_t, A_0 (1-r) = 1 */ V<MP> A(d + 1); std::vector<V<MP>> C(d + 1, V<MP>(d + 1)); for (int i = 0; i <= d; ++i) { C[i][0] = 1; for (int j = 1; j <= i; ++j) C[i][j] = C[i - 1][j - 1] + C[i - 1][j]; } for (int j = 0; j <= d; ++j) { MP s = j == 0 ? MP(1) : MP(0); if (j) for (int t = 0; t < j; ++t) s += r * C[j][t] * A[t]; A[j] = s / (1 - r); } CKM(S.sum() == A[d], "limit sum"); 
        if (r != 0) { i64 n = g.coin() ? (i64)g.raw(1000000000000000001ULL) : (i64)PM * g.in(0, 5) + g.in(0, 30); MP w = 0; for (int a = 0; a <= d; ++a) { MP y = (pre[a] - A[d]) / r.pow(a); for (int b = 0; b <= d; ++b) if (b != a) y = y * (MP(n) - b) / (a - b); w += y; } CKM(S.sum(n) == w * r.pow(n) + A[d], "sum of i^d r^i, huge n"); } }
    for (int t = 0; t < 4; ++t) { int n = g.len(0, N); CKM(S.sum(n) == pre[n], "sum of i^d r^i"); }
    { int t = g.in(0, N), m = g.in(0, N - t); auto q = S.sum((long long)t, m); EQ((int)q.size(), m); for (int i = 0; i < m; ++i) CKM(q[i] == pre[t + i], "consecutive sums of i^d r^i"); }
    if (g.coin()) { i64 t = g.coin() ? (i64)g.raw(1000000000000000001ULL) : (i64)PM * g.in(0, 5) + g.in(-20, 30); if (t < 0) t = 0; int m = g.in(0, 30); g.note("far ", t, " ", m); auto q = S.sum((long long)t, m); EQ((int)q.size(), m); for (int i = 0; i < m; ++i) CKM(q[i] == S.sum((long long)(t + i)), "consecutive sums of i^d r^i, huge t"); }
    g.nontrivial(d >= 1 && r != 0 && r != 1); }
