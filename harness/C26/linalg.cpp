#include "num.hpp"
#include <atcoder/modint>
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/hafnian.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace hv;
using V = std::vector<u64>; using VV = std::vector<V>;
// reference linear algebra on residues modulo m
static VV gen_mat(Gen& g, int n, int k, u64 m) { VV a(n, V(k)); int mode = g.raw(6); for (auto& r : a) for (auto& x : r) x = mode == 0 ? g.raw(2) % m : mode == 1 ? (g.chance(1, 3) ? g.raw(m) : 0) : mode == 2 ? g.raw(3) % m : g.raw(m); if (n > 1 && g.chance(1, 3)) { int i = g.raw(n), j = g.raw(n); u64 c = g.raw(m), e = g.raw(m); int l = g.raw(n); for (int t = 0; t < k; ++t) a[i][t] = (a[j][t] * c + a[l][t] * e) % m; } if (n > 0 && g.chance(1, 5)) { int i = g.raw(n); for (auto& x : a[i]) x = 0; } if (k > 0 && g.chance(1, 4)) { int j = g.raw(k); for (auto& r : a) r[j] = 0; } return a; }
static VV mul(const VV& a, const VV& b, int k, u64 m) { int n = a.size(), h = b.size(); VV c(n, V(k)); for (int i = 0; i < n; ++i) for (int t = 0; t < h; ++t) for (int j = 0; j < k; ++j) c[i][j] = (c[i][j] + (u128)a[i][t] * b[t][j]) % m; return c; }
static u64 det_ref(const VV& a, u64 m) { int n = a.size(); V d(1 << n); d[0] = 1 % m; for (int s = 0; s < 1 << n; ++s) if (d[s]) { int i = __builtin_popcount(s); if (i == n) continue; for (int j = 0; j < n; ++j) if (!(s >> j & 1)) { u64 v = (u64)((u128)d[s] * a[i][j] % m); if (__builtin_popcount(s >> j) & 1) v = (m - v) % m; d[s | 1 << j] = (d[s | 1 << j] + v) % m; } } return d[(1 << n) - 1] % m; }
static VV ident(int n, u64 m) { VV r(n, V(n)); for (int i = 0; i < n; ++i) r[i][i] = 1 % m; return r; }
static VV mpow(VV a, u64 e, u64 m) { int n = a.size(); VV r = ident(n, m); for (; e; e >>= 1, a = mul(a, a, n, m)) if (e & 1) r = mul(r, a, n, m); return r; }
static int rank_ref(VV a, u64 m) { int n = a.size(), k = n ? a[0].size() : 0, r = 0; for (int j = 0; j < k && r < n; ++j) { int p = r; while (p < n && !a[p][j]) ++p; if (p == n) continue; std::swap(a[p], a[r]); u64 iv = pw(a[r][j], m - 2, m); for (int i = r + 1; i < n; ++i) { u64 c = (u64)((u128)a[i][j] * iv % m); for (int t = j; t < k; ++t) a[i][t] = (a[i][t] + (u128)(m - c) * a[r][t]) % m; } ++r; } return r; }
template <class T> static suisen::Matrix<T> mk(const VV& a, int k) { suisen::Matrix<T> r((int)a.size(), k); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < k; ++j) r[i][j] = T(a[i][j]); return r; }
template <class M> static VV rd(const M& a) { VV r; for (int i = 0; i < a.row_size(); ++i) { r.emplace_back(); for (int j = 0; j < a.col_size(); ++j) r.back().push_back(a[i][j].val()); } return r; }
#define MEQ(e, v) CKM(rd(e) == (v), #e)
template <class T> static void matrix_ops(Gen& g, u64 m) {
    int n = g.len(1, 6), k = g.len(1, 6), l = g.len(1, 6); VV a = gen_mat(g, n, k, m), b = gen_mat(g, n, k, m), c = gen_mat(g, k, l, m); auto A = mk<T>(a, k), B = mk<T>(b, k), C = mk<T>(c, l); g.note("mod ", m, " ", a, " ", b, " ", c);
    auto zip = [&](auto f) { VV r = a; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) r[i][j] = f(a[i][j], b[i][j]) % m; return r; };
    CK(A.shape() == std::make_pair(n, k)); EQ(A.row_size(), n); EQ(A.col_size(), k); CK((A == B) == (a == b) && (A != B) == (a != b));
    VV s = zip([&](u64 x, u64 y) { return x + y; }), d = zip([&](u64 x, u64 y) { return x + m - y; }); MEQ(A + B, s); MEQ(A - B, d); MEQ(A * C, mul(a, c, l, m)); { auto D = A; D += B; MEQ(D, s); D = A; D -= B; MEQ(D, d); D = A; D += D; MEQ(D, ([&] { VV r = a; for (auto& w : r) for (auto& x : w) x = 2 * x % m; return r; }())); D = A; D *= C; MEQ(D, mul(a, c, l, m)); }
    u64 v = g.raw(m); VV sc = zip([&](u64 x, u64) { return (u64)((u128)x * v % m); }); MEQ(A * T(v), sc); MEQ(T(v) * A, sc); { auto D = A; D *= T(v); MEQ(D, sc); } if (v) { MEQ((A * T(v)) / T(v), a); auto D = A; D /= T(v); MEQ(D * T(v), a); }
    V x(k); for (auto& e : x) e = g.raw(m); std::vector<T> xt(x.begin(), x.end()); V y(n); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) y[i] = (y[i] + (u128)a[i][j] * x[j]) % m; auto yt = A * xt; EQ((int)yt.size(), n); for (int i = 0; i < n; ++i) EQ((u64)yt[i].val(), y[i]);
    int r0 = g.in(0, n), r1 = g.in(r0, n), c0 = g.in(0, k), c1 = g.in(c0, k); if (r0 < r1 && c0 < c1) { auto S = A.submatrix(r0, r1, c0, c1); EQ(S.row_size(), r1 - r0); EQ(S.col_size(), c1 - c0); for (int i = r0; i < r1; ++i) for (int j = c0; j < c1; ++j) CK(S[i - r0][j - c0] == A[i][j]); auto D = B; D.assign_submatrix(r0, c0, S); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) CK(D[i][j] == (i >= r0 && i < r1 && j >= c0 && j < c1 ? A[i][j] : B[i][j])); }
    VV q = gen_mat(g, n, n, m); auto Q = mk<T>(q, n); u64 e = g.chance(1, 3) ? g.u64any() >> 1 : g.raw(40); MEQ(Q.pow(e), mpow(q, e, m)); MEQ(suisen::Matrix<T>::e1(n), ident(n, m)); MEQ(suisen::Matrix<T>::e0(n), (VV(n, V(n)))); u64 dt = det_ref(q, m); EQ((u64)Q.det().val(), dt); EQ((u64)Q.det_arbitrary_mod().val(), dt);
    auto iv = Q.safe_inv(); EQ((bool)iv, dt != 0); if (iv) { MEQ(Q * *iv, ident(n, m)); MEQ(*iv * Q, ident(n, m)); CK(Q.inv() == *iv); VV w = gen_mat(g, n, n, m); auto Wm = mk<T>(w, n); CK((Wm / Q) * Q == Wm); auto D = Wm; D /= Q; CK(D * Q == Wm); CK(T(v) / Q == *iv * T(v)); } g.nontrivial(n >= 3 && (m < 100 || dt == 0)); }
using M2 = atcoder::static_modint<2>; using M7 = atcoder::static_modint<7>; using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
PBT(matrix, 8000, "order at least 3 with a small field or a singular matrix", 2, 30) { switch (g.raw(4)) { case 0: matrix_ops<M2>(g, 2); break; case 1: matrix_ops<M7>(g, 7); break; case 2: matrix_ops<MP>(g, 998244353); break; default: matrix_ops<MB>(g, 1000000007); } }
PBT(matrix_det_arbitrary_mod, 8000, "composite modulus, order at least 3") { using D = atcoder::dynamic_modint<61>; u64 m = g.pick<u64>({ 1, 4, 6, 8, 12, 36, 1000, 1000000000, 1073741824, 2147483646, 999999999, 97 }); if (g.coin()) m = g.in(1, 200); D::set_mod(m); int n = g.len(1, 6); VV a = gen_mat(g, n, n, m); g.note("mod ", m, " ", a); EQ((u64)mk<D>(a, n).det_arbitrary_mod().val(), det_ref(a, m)); suisen::SquareArrayMatrix<D, 4> B; if (n == 4) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) B[i][j] = a[i][j]; EQ((u64)B.det_arbitrary_mod().val(), det_ref(a, m)); } g.nontrivial(n >= 3 && !isp(m)); }
PBT(matrix_product_large, 40, "all three dimensions above 70") { int n = g.in(60, 150), k = g.in(60, 150), l = g.in(60, 150); if (g.chance(1, 3)) n = g.in(71, 75), k = g.in(71, 75), l = g.in(71, 75); VV a(n, V(k)), b(k, V(l)); u64 s = g.u64any(); for (auto& r : a) for (auto& x : r) x = pbt::mix(++s) % P; for (auto& r : b) for (auto& x : r) x = pbt::mix(++s) % P; g.note(n, " ", k, " ", l); CKM(rd(mk<MP>(a, k) * mk<MP>(b, l)) == mul(a, b, l, P), "product"); g.nontrivial(n > 70 && k > 70 && l > 70); }
// fixed-size matrices, also over user-supplied operations
static int x_add(int a, int b) { return a ^ b; } static int x_neg(int a) { return a; } static int x_zero() { return 0; } static int x_mul(int a, int b) { return a & b; } static int x_inv(int a) { return a; } static int x_one() { return 1; }
static i64 t_add(i64 a, i64 b) { return std::min(a, b); } static i64 t_neg(i64 a) { return a; } static i64 t_zero() { return 1LL << 40; } static i64 t_mul(i64 a, i64 b) { return std::min(a + b, 1LL << 40); } static i64 t_inv(i64 a) { return a; } static i64 t_one() { return 0; }
template <class T, size_t N, size_t K, size_t L> static void arr(Gen& g, u64 m) {
    using AM = suisen::ArrayMatrix<T, N, K>; using AC = suisen::ArrayMatrix<T, K, L>; using AQ = suisen::SquareArrayMatrix<T, N>; int n = N, k = K, l = L; VV a = gen_mat(g, n, k, m), b = gen_mat(g, n, k, m), c = gen_mat(g, k, l, m); g.note("mod ", m, " ", a, " ", b, " ", c); auto fill = [](auto& X, const VV& v) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) X[i][j] = T(v[i][j]); }; AM A, B; AC C; fill(A, a); fill(B, b); fill(C, c);
    auto zip = [&](auto f) { VV r = a; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) r[i][j] = f(a[i][j], b[i][j]) % m; return r; }; VV s = zip([&](u64 x, u64 y) { return x + y; }), d = zip([&](u64 x, u64 y) { return x + m - y; }); MEQ(A + B, s); MEQ(A - B, d); MEQ(A * C, mul(a, c, l, m)); MEQ(+A, a); MEQ(-A, zip([&](u64 x, u64) { return m - x; })); CK(A.shape() == std::make_pair(n, k)); { auto D = A; D += B; MEQ(D, s); D = A; D -= B; MEQ(D, d); }
    u64 v = g.raw(m); VV sc = zip([&](u64 x, u64) { return (u64)((u128)x * v % m); }); MEQ(A * T(v), sc); MEQ(T(v) * A, sc); if (v) { MEQ((A * T(v)) / T(v), a); auto D = A; D *= T(v); D /= T(v); MEQ(D, a); } std::array<T, K> x; for (auto& e : x) e = T(g.raw(m)); auto y = A * x; for (int i = 0; i < n; ++i) { T t = 0; for (int j = 0; j < k; ++j) t += A[i][j] * x[j]; CK(y[i] == t); } MEQ(AM::e0(), (VV(n, V(k)))); MEQ(AM::e1(), ident(k, m));
    VV q = gen_mat(g, n, n, m); AQ Q; fill(Q, q); EQ(Q.size(), n); u64 e = g.chance(1, 3) ? g.u64any() >> 1 : g.raw(40); MEQ(Q.pow(e), mpow(q, e, m)); u64 dt = det_ref(q, m); EQ((u64)Q.det().val(), dt); EQ((u64)Q.det_arbitrary_mod().val(), dt); auto iv = Q.safe_inv(); EQ((bool)iv, dt != 0); if (iv) { MEQ(Q * *iv, ident(n, m)); MEQ(*iv * Q, ident(n, m)); CK(Q.inv() == *iv); VV w = gen_mat(g, n, n, m); AQ Wm; fill(Wm, w); CK((Wm / Q) * Q == Wm); AQ D = Wm; D /= Q; CK(D * Q == Wm); CK(T(v) / Q == *iv * T(v)); } { AQ D = Q; D *= D; MEQ(D, mul(q, q, n, m)); D = Q; D *= Q; MEQ(D, mul(q, q, n, m)); } g.nontrivial(N >= 3 && (m < 100 || dt == 0)); }
PBT(array_matrix, 8000, "order at least 3 with a small field or a singular matrix") { switch (g.raw(6)) { case 0: arr<M2, 4, 3, 5>(g, 2); break; case 1: arr<M7, 3, 4, 2>(g, 7); break; case 2: arr<MP, 5, 2, 3>(g, 998244353); break; case 3: arr<MP, 1, 1, 1>(g, 998244353); break; case 4: arr<M7, 2, 3, 1>(g, 7); break; default: arr<M7, 4, 4, 4>(g, 7); } }
PBT(array_matrix_custom, 6000, "more than 5 steps") { using X = suisen::SquareArrayMatrix<int, 4, x_add, x_neg, x_zero, x_mul, x_inv, x_one>; using Tr = suisen::SquareArrayMatrix<i64, 4, t_add, t_neg, t_zero, t_mul, t_inv, t_one>; VV q = gen_mat(g, 4, 4, 2); X Q; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) Q[i][j] = q[i][j]; auto get = [](const X& x) { VV r(4, V(4)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = x[i][j]; return r; }; u64 e = g.raw(30); CK(get(Q.pow(e)) == mpow(q, e, 2)); EQ((u64)Q.det(), det_ref(q, 2)); auto iv = Q.safe_inv(); EQ((bool)iv, det_ref(q, 2) == 1); if (iv) CK(get(Q * *iv) == ident(4, 2)); Tr D; std::vector<std::vector<i64>> w(4, std::vector<i64>(4, 1LL << 40)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (g.chance(2, 3)) w[i][j] = g.range(-5, 20); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) D[i][j] = w[i][j]; int st = g.in(0, 9); std::vector<std::vector<i64>> f(4, std::vector<i64>(4, 1LL << 40)); for (int i = 0; i < 4; ++i) f[i][i] = 0; for (int s = 0; s < st; ++s) { auto h = f; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { h[i][j] = 1LL << 40; for (int t = 0; t < 4; ++t) if (f[i][t] < (1LL << 39) && w[t][j] < (1LL << 39)) h[i][j] = std::min(h[i][j], f[i][t] + w[t][j]); } f = h; } auto R = D.pow(st); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CKM(f[i][j] > (1LL << 39) ? R[i][j] > (1LL << 39) : R[i][j] == f[i][j], "tropical power"); g.nontrivial(st > 5); }
// systems of linear equations
template <class T, class S> static void solve_check(Gen& g, u64 m, S) { int n = g.len(1, 7), k = g.len(1, 7); VV a = gen_mat(g, n, k, m); V b(n); if (g.chance(2, 3)) { V x(k); for (auto& e : x) e = g.raw(m); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) b[i] = (b[i] + (u128)a[i][j] * x[j]) % m; if (g.chance(1, 4)) b[g.raw(n)] = g.raw(m); } else for (auto& e : b) e = g.raw(m); g.note("mod ", m, " ", a, " = ", b); std::vector<std::vector<T>> A(n, std::vector<T>(k)); std::vector<T> B(n); for (int i = 0; i < n; ++i) { B[i] = T(b[i]); for (int j = 0; j < k; ++j) A[i][j] = T(a[i][j]); } typename S::template of<T> s(A, B); VV ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int r = rank_ref(a, m); bool ok = rank_ref(ab, m) == r; EQ(s.has_solution(), ok); EQ(s.has_unique_solution(), ok && r == k); EQ(s.has_multiple_solutions(), ok && r < k); EQ(s.dimension(), ok ? k - r : -1); EQ((bool)s.get_solution(), ok); if (ok) { auto x = *s.get_solution(); EQ((int)x.size(), k); auto val = [&](const T& v) { return S::val(v); }; for (int i = 0; i < n; ++i) { u64 t = 0; for (int j = 0; j < k; ++j) t = (t + (u128)a[i][j] * val(x[j])) % m; CKM(t == b[i], "not a solution"); } VV bs; for (auto& z : s.get_basis()) { EQ((int)z.size(), k); V w; for (auto& e : z) w.push_back(val(e)); for (int i = 0; i < n; ++i) { u64 t = 0; for (int j = 0; j < k; ++j) t = (t + (u128)a[i][j] * w[j]) % m; CKM(t == 0, "basis vector outside the kernel"); } bs.push_back(w); } EQ((int)bs.size(), k - r); if (bs.size()) EQ(rank_ref(bs, m), k - r); } g.nontrivial(r >= 2 && r < std::min(n, k)); }
struct Ari { template <class T> using of = suisen::GaussianEliminationArithmetic<T>; template <class T> static u64 val(const T& v) { return v.val(); } };
struct Bin { template <class T> using of = suisen::GaussianEliminationF2<T>; template <class T> static u64 val(const T& v) { return (u64)v; } };
PBT(gaussian_elimination, 12000, "rank at least 2 and deficient", 4, 15) { switch (g.raw(5)) { case 0: solve_check<MP>(g, 998244353, Ari()); break; case 1: solve_check<M7>(g, 7, Ari()); break; case 2: solve_check<int>(g, 2, Bin()); break; case 3: solve_check<u64>(g, 2, Bin()); break; default: solve_check<M2>(g, 2, Ari()); } }
PBT(gaussian_elimination_real, 6000, "rank deficient") { int n = g.len(1, 5), k = g.in(1, 5); std::vector<std::vector<double>> a(n, std::vector<double>(k)); std::vector<double> b(n); VV am(n, V(k)), ab; for (auto& r : a) for (auto& x : r) x = g.range(-4, 4); if (n > 1 && g.coin()) { int i = g.raw(n), j = g.raw(n); double c = g.range(-2, 2); for (int t = 0; t < k; ++t) a[i][t] = a[j][t] * c; } if (g.chance(2, 3)) { for (int j = 0; j < k; ++j) { double x = g.range(-3, 3); for (int i = 0; i < n; ++i) b[i] += a[i][j] * x; } } else for (auto& x : b) x = g.range(-5, 5); auto md = [](double v) { i64 t = (i64)v; return (u64)((t % (i64)P + (i64)P) % (i64)P); }; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) am[i][j] = md(a[i][j]); ab = am; for (int i = 0; i < n; ++i) ab[i].push_back(md(b[i])); g.note(a, " = ", b); int r = rank_ref(am, P); bool ok = rank_ref(ab, P) == r; suisen::GaussianEliminationArithmetic<double> s(a, b); EQ(s.has_solution(), ok); EQ(s.dimension(), ok ? k - r : -1); if (ok) { auto x = *s.get_solution(); for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < k; ++j) t += a[i][j] * x[j]; CK(std::abs(t - b[i]) < 1e-6); } for (auto& z : s.get_basis()) { double nm = 0; for (double e : z) nm += e * e; CK(nm > 0.5); for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < k; ++j) t += a[i][j] * z[j]; CK(std::abs(t) < 1e-6); } } } g.nontrivial(r < std::min(n, k)); }
// det(xE - A) by evaluation at n+1 points is a complete check for a monic polynomial of degree n
template <class T> static void charp(Gen& g, u64 m) { int n = g.len(0, 7); VV a = gen_mat(g, n, n, m); g.note("mod ", m, " ", a); auto p = suisen::characteristic_polynomial(mk<T>(a, n)); EQ((int)p.size(), n + 1); CK(p[n] == T(1)); V co{ 1 }; /* Faddeev-free reference: expand det over subsets of principal minors: coefficient of x^{n-k} is (-1)^k times the sum of principal k-minors */ for (int k = 0; k <= n; ++k) { u64 s = 0; for (int S = 0; S < 1 << n; ++S) if (__builtin_popcount(S) == k) { std::vector<int> id; for (int i = 0; i < n; ++i) if (S >> i & 1) id.push_back(i); VV b(k, V(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) b[i][j] = a[id[i]][id[j]]; s = (s + det_ref(b, m)) % m; } if (k & 1) s = (m - s) % m; EQ((u64)p[n - k].val(), s); } if (n) { auto H = suisen::hessenberg_reduction(mk<T>(a, n)); for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < i; ++j) CKM(H[i][j] == T(0), "not Hessenberg"); auto q = suisen::characteristic_polynomial(H); CKM(p == q, "reduction is not a similarity"); for (int e = 1; e <= n; ++e) { VV x = mpow(rd(H), e, m), y = mpow(a, e, m); EQ(rank_ref(x, m), rank_ref(y, m)); } } g.nontrivial(n >= 4); }
PBT(characteristic_polynomial, 3000, "order at least 4") { switch (g.raw(4)) { case 0: charp<M2>(g, 2); break; case 1: charp<M7>(g, 7); break; default: charp<MP>(g, 998244353); } }
static std::vector<MP> conv_ref(const std::vector<MP>& a, const std::vector<MP>& b) { if (a.empty() || b.empty()) return {}; std::vector<MP> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
PBT(circulant_matrix, 5000, "order at least 3", 4, 30) { using C = suisen::CirculantMatrix<MP>; C::set_multiplication(conv_ref); int n = g.len(1, 8); auto gv = [&] { std::vector<MP> v(n); for (auto& x : v) x = g.chance(1, 3) ? g.in(0, 3) : (i64)g.raw(P); return v; }; auto a = gv(), b = gv(); C A(a), B(b); auto full = [&](const C& x) { VV r(n, V(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r[i][j] = x.get(i, j).val(); CK(x[std::make_pair(i, j)] == x.get(i, j)); } return r; }; VV fa = full(A), fb = full(B); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CK(MP(fa[i][j]) == a[(i - j + n) % n]); EQ(A.size(), n); auto zip = [&](auto f) { VV r = fa; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = f(fa[i][j], fb[i][j]) % P; return r; }; CK(full(A + B) == zip([](u64 x, u64 y) { return x + y; })); CK(full(A - B) == zip([](u64 x, u64 y) { return x + P - y; })); CK(full(-A) == zip([](u64 x, u64) { return P - x; })); CK(full(+A) == fa); CK(full(A * B) == mul(fa, fb, n, P)); MP v = (i64)g.raw(P); CK(full(A * v) == zip([&](u64 x, u64) { return x * v.val(); })); CK(full(v * A) == full(A * v)); auto x = gv(); auto y = A * x; for (int i = 0; i < n; ++i) { MP t = 0; for (int j = 0; j < n; ++j) t += MP(fa[i][j]) * x[j]; CK(y[i] == t); } u64 e = g.chance(1, 3) ? g.u64any() >> 1 : g.raw(20); CK(full(A.pow(e)) == mpow(fa, e, P)); CK(full(C::e1(n)) == ident(n, P)); CK(full(C::e0(n)) == VV(n, V(n))); { C D = A; D += B; CK(full(D) == full(A + B)); D = A; D -= B; CK(full(D) == full(A - B)); D = A; D *= B; CK(full(D) == full(A * B)); D = A; D *= v; CK(full(D) == full(A * v)); D = A; D *= D; CK(full(D) == mul(fa, fa, n, P)); } EQ(C().size(), 0); g.nontrivial(n >= 3); }
PBT(count_spanning_trees, 6000, "connected, at least 4 vertices, more edges than a tree") { int n = g.in(1, 6); int m = g.len(0, 12); std::vector<std::pair<int, int>> e; for (int i = 0; i < m; ++i) e.emplace_back(g.raw(n), g.raw(n)); if (g.coin()) for (int i = 1; i < n; ++i) e.emplace_back(g.raw(i), i); if (e.size() > 13) e.resize(13); g.note(n, " ", e); u64 want = 0; int E = e.size(); for (int s = 0; s < 1 << E; ++s) if (__builtin_popcount(s) == n - 1) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); bool ok = true; for (int i = 0; i < E && ok; ++i) if (s >> i & 1) { int a = p[e[i].first], b = p[e[i].second]; if (a == b) ok = false; for (auto& x : p) if (x == a) x = b; } want += ok; } EQ((u64)suisen::count_spanning_trees<MP>(n, e).val(), want); std::vector<std::array<int, 2>> ea; for (auto& [u, v] : e) ea.push_back({ u, v }); EQ((u64)suisen::count_spanning_trees<MB>(n, ea).val(), want); g.nontrivial(n >= 4 && want > 1); }
PBT(hafnian, 1500, "order at least 6") { int n = 2 * g.in(1, 5); std::vector<std::vector<MP>> a(n, std::vector<MP>(n)); std::vector<std::vector<int>> z(n, std::vector<int>(n)); bool sm = g.coin(); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { z[i][j] = z[j][i] = sm ? g.in(0, 1) : g.in(0, 1000000); a[i][j] = a[j][i] = z[i][j]; } std::vector<MP> d(1 << n); d[0] = 1; for (int s = 1; s < 1 << n; ++s) { int i = __builtin_ctz(s); for (int j = i + 1; j < n; ++j) if (s >> j & 1) d[s] += d[s ^ (1 << i) ^ (1 << j)] * a[i][j]; } CK(suisen::hafnian<MP>(a) == d[(1 << n) - 1]); CK((suisen::hafnian<MP, int>(z)) == d[(1 << n) - 1]); g.nontrivial(n >= 6); }
template <class T> static std::set<T> span(const std::vector<T>& b) { std::set<T> s{ 0 }; for (T v : b) { std::set<T> t = s; for (T x : s) t.insert(x ^ v); s = t; } return s; }
template <class T> static void xb(Gen& g) { using X = suisen::XorBase<T>; int bits = g.in(1, 6), sh = g.in(0, (int)sizeof(T) * 8 - 8); auto gv = [&] { return (T)((u64)g.raw(1 << bits) << sh); }; auto gl = [&] { std::vector<T> v(g.in(0, 7)); for (auto& x : v) x = gv(); return v; }; auto a = gl(), b = gl(); X A(a), B(b); std::set<T> sa = span(a), sb = span(b); auto chk = [&](const X& x, const std::set<T>& s) { CKM(span(x.get_basis()) == s, "span"); CKM((1ull << x.dim()) == s.size(), "dimension"); EQ((int)x.get_basis().size(), x.dim()); }; chk(A, sa); chk(B, sb); auto ab = a; ab.insert(ab.end(), b.begin(), b.end()); chk(A + B, span(ab)); std::set<T> in; for (T x : sa) if (sb.count(x)) in.insert(x); chk(A & B, in); chk(A.intersection(B), in); { X C = A; C &= B; chk(C, in); C += A; chk(C, sa); C = A; C += B; chk(C, span(ab)); chk(C & A, sa); chk((A & B) + (B & A), in); } T v = gv(); { auto av = a; av.push_back(v); X C = A; EQ(C.add(v), !sa.count(v)); chk(C, span(av)); X D = A; D += v; chk(D, span(av)); chk(A + v, span(av)); } g.nontrivial(in.size() > 1 && in.size() < sa.size() && in.size() < sb.size()); }
PBT(xor_base, 15000, "non-trivial proper intersection") { switch (g.raw(3)) { case 0: xb<unsigned>(g); break; case 1: xb<u64>(g); break; default: xb<int>(g); } }
// column-dominant systems with rows in any order: small entries in the way must not spoil the accuracy
PBT(gaussian_elimination_stable, 4000, "a small entry precedes the dominant one in some column") {
    int n = g.size(2, 6); auto p = g.perm(n); std::vector<std::vector<double>> a(n, std::vector<double>(n)); std::vector<double> b(n), x(n); bool nt = false;
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { if (i == p[j]) a[i][j] = (g.coin() ? 1 : -1) * (n + double(g.raw(8))); else { double e = g.pick<double>({ 2e-9, 1e-8, 1e-7, 1e-4, 0.25, 0.5 }); a[i][j] = g.chance(1, 6) ? 0 : (g.coin() ? e : -e); if (i < p[j] && a[i][j] && e < 1e-3) nt = true; } }
    for (auto& v : x) v = g.range(-9, 9);
    for (int i = 0; i < n; ++i) { long double t = 0; for (int j = 0; j < n; ++j) t += (long double)a[i][j] * x[j]; b[i] = t; }
    g.note(a, " = ", b); suisen::GaussianEliminationArithmetic<double> s(a, b); CK(s.has_unique_solution()); auto y = *s.get_solution();
    for (int i = 0; i < n; ++i) CKM(std::abs(x[i] - y[i]) < 2e-8, "coordinate " + std::to_string(i) + ": got " + std::to_string(y[i]) + " want " + std::to_string(x[i]));
    g.nontrivial(nt);
}
