#include "num.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/transform/divisor.hpp"
#include "library/transform/multiple.hpp"
#include "library/transform/subset.hpp"
#include "library/transform/supset.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/kronecker_power.hpp"
#include "library/transform/chirp_z_transform.hpp"
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/array_subset_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
#include "library/polynomial/fps.hpp"
#include "library/convolution/polynomial_eval.hpp"
#include "library/convolution/polynomial_eval_multipoint_eval.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
static std::ostream& operator<<(std::ostream& o, const MP& x) { return o << x.val(); }
template <class T> static std::vector<T> gv(Gen& g, int n) { std::vector<T> v(n); int mode = g.raw(3); for (auto& x : v) x = T(mode == 0 ? g.range(0, 3) : mode == 1 ? (g.chance(1, 4) ? g.range(-1000, 1000) : 0) : g.range(-1000, 1000)); return v; }
template <class T> static T cadd(const T& a, const T& b) { return T(std::max(a, b)); }
template <class T> static void divmul(Gen& g) { int n = g.chance(1, 30) ? g.in(200, 500) : g.in(0, 70); auto a = gv<T>(g, n), b = gv<T>(g, n); auto z = a; divisor_transform::zeta(z); std::vector<T> w(n, T(0)); if (n) w[0] = a[0]; for (int d = 1; d < n; ++d) for (int m = d; m < n; m += d) w[m] += a[d]; CKM(z == w, "divisor zeta"); divisor_transform::mobius(z); CKM(z == a, "divisor mobius"); z = a; multiple_transform::zeta(z); std::vector<T> u(n, T(0)); if (n) u[0] = a[0]; for (int d = 1; d < n; ++d) for (int m = d; m < n; m += d) u[d] += a[m]; CKM(z == u, "multiple zeta"); multiple_transform::mobius(z); CKM(z == a, "multiple mobius"); if (n >= 1) { std::vector<T> gc(n, T(0)), lc(n, T(0)); a[0] = b[0] = T(0); for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) { gc[std::__gcd(i, j)] += a[i] * b[j]; i64 l = (i64)i / std::__gcd(i, j) * j; if (l < n) lc[l] += a[i] * b[j]; } CKM(gcd_convolution<T>(a, b) == gc, "gcd convolution"); CKM(lcm_convolution<T>(a, b) == lc, "lcm convolution"); int N = g.len(0, 2 * n); auto c = gv<T>(g, g.in(0, n + 3)); std::vector<T> dc(N, T(0)), dp(N, T(0)); for (int i = 1; i < n; ++i) for (int j = 1; j < (int)c.size(); ++j) if ((i64)i * j < N) { dc[i * j] += a[i] * c[j]; if (std::__gcd(i, j) == 1) dp[i * j] += a[i] * c[j]; } CKM(dirichlet_convolution(a, c, N) == dc, "dirichlet"); CKM(dirichlet_convolution_coprime(a, c, N) == dp, "dirichlet coprime"); } g.nontrivial(n >= 12); }
PBT(divisor_multiple, 2500, "length at least 12") { if (g.coin()) divmul<i64>(g); else divmul<MP>(g); }
PBT(zeta_with_custom_addition, 4000, "length at least 16") { int k = g.in(0, 6), n = 1 << k; auto a = g.vec<int>(n, -50, 50); auto s = a, t = a; subset_transform::zeta<int, cadd<int>>(s); supset_transform::zeta<int, cadd<int>>(t); for (int i = 0; i < n; ++i) { int x = INT_MIN, y = INT_MIN; for (int j = 0; j < n; ++j) { if ((i & j) == j) x = std::max(x, a[j]); if ((i & j) == i) y = std::max(y, a[j]); } EQ(s[i], x); EQ(t[i], y); } int m = g.len(1, 60); auto b = g.vec<int>(m, -50, 50); auto d = b, e = b; divisor_transform::zeta<int, cadd<int>>(d); multiple_transform::zeta<int, cadd<int>>(e); for (int i = 1; i < m; ++i) { int x = INT_MIN, y = INT_MIN; for (int j = 1; j < m; ++j) { if (i % j == 0) x = std::max(x, b[j]); if (j % i == 0) y = std::max(y, b[j]); } EQ(d[i], x); EQ(e[i], y); } g.nontrivial(n >= 16); }
template <class T> static void bitwise(Gen& g) { int k = g.in(0, 6), n = 1 << k; auto a = gv<T>(g, n), b = gv<T>(g, n); std::vector<T> A(n, T(0)), O(n, T(0)), X(n, T(0)), S(n, T(0)), W(n, T(0)), zs(n, T(0)), zp(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { T p = a[i] * b[j]; A[i & j] += p; O[i | j] += p; X[i ^ j] += p; if (!(i & j)) S[i | j] += p; if (__builtin_popcount(i & j) & 1) W[i] -= a[j]; else W[i] += a[j]; if ((i & j) == j) zs[i] += a[j]; if ((i & j) == i) zp[i] += a[j]; } CKM(and_convolution<T>(a, b) == A, "and"); CKM(or_convolution<T>(a, b) == O, "or"); CKM(xor_convolution<T>(a, b) == X, "xor"); auto z = a; walsh_hadamard_transform::walsh_hadamard(z); CKM(z == W, "walsh-hadamard"); walsh_hadamard_transform::walsh_hadamard_inv(z); CKM(z == a, "inverse walsh-hadamard"); subset_transform::zeta(z); CKM(z == zs, "subset zeta"); subset_transform::mobius(z); CKM(z == a, "subset mobius"); supset_transform::zeta(z); CKM(z == zp, "superset zeta"); supset_transform::mobius(z); CKM(z == a, "superset mobius");
    std::vector<std::vector<T>> vs{ a, b }; auto c = gv<T>(g, n); int cnt = g.in(1, 3); if (cnt == 3) vs.push_back(c); if (cnt == 1) vs.pop_back(); auto r = convolution::transform_convolution<T, subset_transform::zeta<T>, subset_transform::mobius<T>>(vs); std::vector<T> want = a; if (cnt >= 2) want = O; if (cnt == 3) { std::vector<T> h(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h[i | j] += O[i] * c[j]; want = h; } CKM(r == want, "product of several sequences");
    if constexpr (!std::is_integral_v<T>) { CKM(subset_convolution<T>(a, b) == S, "subset convolution"); auto ra = array_ranked_subset_transform::ranked_zeta<T, 7>(a), rb = array_ranked_subset_transform::ranked_zeta<T, 7>(b); for (int i = 0; i < n; ++i) ra[i] = ra[i] * rb[i]; CKM((array_ranked_subset_transform::deranked_mobius<T, 7>(ra) == S), "array subset convolution"); auto q = ranked_subset_transform::ranked_zeta<T>(a); CKM(ranked_subset_transform::deranked_mobius<T>(q) == a, "ranked round trip"); auto e = polynomial_eval<T, subset_transform::zeta<T>, subset_transform::mobius<T>>(a, [](T x) { return x * x + T(3); }); std::vector<T> sq(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sq[i | j] += a[i] * a[j]; sq[0] += T(3); CKM(e == sq, "polynomial of a sequence"); } g.nontrivial(k >= 3); }
PBT(bitwise, 3000, "at least 3 bits") { switch (g.raw(3)) { case 0: bitwise<i64>(g); break; case 1: bitwise<MB>(g); break; default: bitwise<MP>(g); } }
PBT(polynomial_eval_multipoint, 300, "at least 3 bits and degree at least 2") { FPS<MP>::set_multiplication([](const auto& x, const auto& y) { return atcoder::convolution(x, y); }); int k = g.in(0, 5), n = 1 << k; auto a = gv<MP>(g, n); int d = g.in(0, 6); auto c = gv<MP>(g, d); FPS<MP> f(c.begin(), c.end()); auto r = polynomial_eval<MP, walsh_hadamard_transform::walsh_hadamard<MP>, walsh_hadamard_transform::walsh_hadamard_inv<MP>>(a, f); std::vector<MP> p(n), s(n); p[0] = 1; for (int e = 0; e < d; ++e) { for (int i = 0; i < n; ++i) s[i] += c[e] * p[i]; std::vector<MP> h(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h[i ^ j] += p[i] * a[j]; p = h; } CKM(r == s, "f(a) under xor convolution"); g.nontrivial(k >= 3 && d >= 3); }
// mixed-radix (Kronecker) transforms
PBT(kronecker, 4000, "at least 3 dimensions") { int m = g.len(0, 4); std::vector<int> d(m); int n = 1; for (auto& x : d) x = g.in(1, 4), n *= x; auto a = gv<i64>(g, n); auto dig = [&](int i) { std::vector<int> r; for (int x : d) r.push_back(i % x), i /= x; return r; }; std::vector<std::vector<int>> D(n); for (int i = 0; i < n; ++i) D[i] = dig(i); std::vector<i64> lo(n), hi(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool le = true, ge = true; for (int t = 0; t < m; ++t) le &= D[j][t] <= D[i][t], ge &= D[j][t] >= D[i][t]; if (le) lo[i] += a[j]; if (ge) hi[i] += a[j]; } auto z = a; kronecker_transform::sub_zeta(z, d); CKM(z == lo, "sub_zeta"); kronecker_transform::sub_mobius(z, d); CKM(z == a, "sub_mobius"); kronecker_transform::sup_zeta(z, d); CKM(z == hi, "sup_zeta"); kronecker_transform::sup_mobius(z, d); CKM(z == a, "sup_mobius");
    std::vector<std::vector<i64>> mats; z = a; std::vector<std::vector<std::vector<i64>>> M(m); for (int t = 0; t < m; ++t) { M[t].assign(d[t], std::vector<i64>(d[t])); for (auto& r : M[t]) for (auto& x : r) x = g.range(-2, 2); } kronecker_transform::transform(z, d, [&](int t, StepView<std::vector<i64>> v) { CK((int)v.size() == d[t]); std::vector<i64> y(d[t]); for (int i = 0; i < d[t]; ++i) for (int j = 0; j < d[t]; ++j) y[i] += M[t][i][j] * v[j]; for (int i = 0; i < d[t]; ++i) v[i] = y[i]; }); std::vector<i64> w(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { i64 c = 1; for (int t = 0; t < m; ++t) c *= M[t][D[i][t]][D[j][t]]; w[i] += c * a[j]; } CKM(z == w, "Kronecker product"); g.nontrivial(m >= 3 && n >= 8); }
static void u3(i64& x, i64& y, i64& z) { i64 a = x, b = y, c = z; x = a + b + c; y = a - b; z = b + 2 * c; }
PBT(kronecker_power, 4000, "at least two digits") { int D = g.in(2, 4), k = g.in(0, D == 2 ? 6 : 3), n = 1; for (int i = 0; i < k; ++i) n *= D; auto a = gv<i64>(g, n); std::vector<std::vector<i64>> M(D, std::vector<i64>(D)); for (auto& r : M) for (auto& x : r) x = g.range(-2, 2); if (D == 3 && g.coin()) M = { { 1, 1, 1 }, { 1, -1, 0 }, { 0, 1, 2 } }; std::vector<i64> w(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { i64 c = 1; for (int t = 0, x = i, y = j; t < k; ++t, x /= D, y /= D) c *= M[x % D][y % D]; w[i] += c * a[j]; } auto z = a; kronecker_power_transform::kronecker_power_transform<i64>(z, M); CKM(z == w, "matrix power"); z = a; kronecker_power_transform::kronecker_power_transform<i64>(z, D, [&](std::vector<i64>& v) { auto u = v; for (int i = 0; i < D; ++i) { v[i] = 0; for (int j = 0; j < D; ++j) v[i] += M[i][j] * u[j]; } }); CKM(z == w, "callback power"); if (M == std::vector<std::vector<i64>>{ { 1, 1, 1 }, { 1, -1, 0 }, { 0, 1, 2 } }) { z = a; kronecker_power_transform::kronecker_power_transform<i64, 3, u3>(z); CKM(z == w, "unit transform power"); } { auto lo = a; kronecker_transform::sub_zeta(lo, D); auto l2 = a; kronecker_transform::transform(l2, D, [](StepView<std::vector<i64>> v) { for (size_t i = 1; i < v.size(); ++i) v[i] += v[i - 1]; }); std::vector<i64> ref(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool le = true; for (int x = i, y = j; x || y; x /= D, y /= D) le &= y % D <= x % D; if (le) ref[i] += a[j]; } CK(lo == ref && l2 == ref); kronecker_transform::sub_mobius(lo, D); CK(lo == a); std::vector<i64> r2(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool ge = true; for (int x = i, y = j; x || y; x /= D, y /= D) ge &= y % D >= x % D; if (ge) r2[i] += a[j]; } kronecker_transform::sup_zeta(lo, D); CK(lo == r2); kronecker_transform::sup_mobius(lo, D); CK(lo == a); } g.nontrivial(k >= 2); }
PBT(chirp_z_transform, 1500, "at least 60 coefficients, more than one point, a is not 1") { int n = g.chance(1, 2) ? g.in(0, 20) : g.in(50, 130), m = g.chance(1, 2) ? g.in(0, 20) : g.in(0, 150); auto f = gv<MP>(g, n); MP a = g.chance(1, 4) ? (i64)g.in(0, 2) : (i64)g.raw(P), r = g.chance(1, 4) ? (i64)g.in(0, 2) : (i64)g.raw(P); if (g.chance(1, 8)) r = MP(3).pow((P - 1) / 8); g.note("n ", n, " m ", m, " a ", a.val(), " r ", r.val()); auto y = suisen::chirp_z_transform<MP>(f, a, r, m, [](const auto& p, const auto& q) { return atcoder::convolution(p, q); }); if (n + m < 200) CKM(suisen::chirp_z_transform<MP>(f, a, r, m) == y, "default convolution"); EQ((int)y.size(), m); MP rk = 1; for (int k = 0; k < m; ++k, rk *= r) { MP x = a * rk, s = 0; for (int i = n; i-- > 0;) s = s * x + f[i]; CKM(y[k] == s, "value at a r^k"); } g.nontrivial(n >= 60 && m > 1 && a != MP(1)); }
template <class T> static void mp(Gen& g) { int n = g.len(1, 14), m = g.len(1, 14); auto cv = [&](int n) { auto d = g.vec<T>(std::max(n - 1, 0), -9, 9); std::sort(d.begin(), d.end()); std::vector<T> v{ (T)g.range(-50, 50) }; for (auto x : d) v.push_back(v.back() + x); return v; }; auto a = cv(n), b = cv(m), c = g.vec<T>(m, -40, 40); auto ref = [&](const std::vector<T>& x, const std::vector<T>& y) { std::vector<T> r(n + m - 1, std::numeric_limits<T>::max()); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r[i + j] = std::min<T>(r[i + j], x[i] + y[j]); return r; }; g.note(a, " ", b, " ", c); EQ(min_plus_convolution_convex_convex(a, b), ref(a, b)); EQ(min_plus_convolution_convex_arbitrary(a, c), ref(a, c)); EQ(min_plus_convolution_convex_arbitrary(a, b), ref(a, b)); g.nontrivial(n >= 4 && m >= 4); }
PBT(min_plus, 15000, "both lengths at least 4", 8, 15) { if (g.coin()) mp<int>(g); else mp<i64>(g); }
