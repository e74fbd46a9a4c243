#include "large.hpp"
#include "num.hpp"
#include <bitset>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace hv; using MP = atcoder::modint998244353; using VV = std::vector<std::vector<MP>>;
static MP gdet(VV a, int* rank = nullptr) { int n = a.size(), k = n ? a[0].size() : 0, r = 0; MP d = 1; for (int j = 0; j < k && r < n; ++j) { int p = r; while (p < n && a[p][j].val() == 0) ++p; if (p == n) { d = 0; continue; } if (p != r) std::swap(a[p], a[r]), d = -d; d *= a[r][j]; MP iv = a[r][j].inv(); for (int i = r + 1; i < n; ++i) if (a[i][j].val()) { MP c = a[i][j] * iv; for (int t = j; t < k; ++t) a[i][t] -= c * a[r][t]; } ++r; } if (rank) *rank = r; return r == n && n == k ? d : MP(0); }
static VV rnd(Gen& g, Bulk& b, int n, int k) { VV a(n, std::vector<MP>(k)); int mode = g.raw(3); for (auto& r : a) for (auto& x : r) x = mode == 0 && b.raw(8) ? 0 : (i64)b.raw(P); if (mode == 1) for (int t = n * 2 / 3; t < n; ++t) { int i = b.raw(n / 2), j = b.raw(n / 2); MP c = (i64)b.raw(P); for (int q = 0; q < k; ++q) a[t][q] = a[i][q] + c * a[j][q]; } return a; }
static suisen::Matrix<MP> mk(const VV& a) { suisen::Matrix<MP> m((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) m[i][j] = a[i][j]; return m; }
PBT(matrix_large, 3, "every case: order above 100") {
    int n = g.in(110, 160); Bulk b(g); g.nontrivial(); auto a = rnd(g, b, n, n); auto A = mk(a); MP d = gdet(a); CK(A.det() == d); if (n < 130) CK(A.det_arbitrary_mod() == d); auto iv = A.safe_inv(); EQ((bool)iv, d.val() != 0); std::vector<MP> x(n); for (auto& e : x) e = (i64)b.raw(P); if (iv) CK((*iv * (A * x)) == x); u64 e = b.next() >> 40; auto y = x; std::vector<MP> z(n); auto Q = A.pow(5) * x; for (int t = 0; t < 5; ++t) { for (int i = 0; i < n; ++i) { z[i] = 0; for (int j = 0; j < n; ++j) z[i] += a[i][j] * y[j]; } y = z; } CK(Q == y); (void)e;
    auto p = suisen::characteristic_polynomial(A); EQ((int)p.size(), n + 1); MP t = (i64)b.raw(P), s = 0; for (int i = n + 1; i--;) s = s * t + p[i]; auto c = a; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[i][j] = (i == j ? t : MP(0)) - a[i][j]; CKM(gdet(c) == s, "characteristic polynomial at a random point");
}
PBT(systems_large, 3, "every case: more than 100 unknowns") {
    int n = g.in(80, 160), k = g.in(80, 160); Bulk b(g); g.nontrivial(); auto a = rnd(g, b, n, k); std::vector<MP> x(k), y(n); for (auto& e : x) e = (i64)b.raw(P); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) y[i] += a[i][j] * x[j]; if (g.chance(1, 4)) y[b.raw(n)] += 1; auto ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(y[i]); int r, q; gdet(a, &r); gdet(ab, &q); suisen::GaussianEliminationArithmetic<MP> s(a, y); EQ(s.has_solution(), r == q); EQ(s.dimension(), r == q ? k - r : -1); if (r == q) { auto z = *s.get_solution(); for (int i = 0; i < n; ++i) { MP w = 0; for (int j = 0; j < k; ++j) w += a[i][j] * z[j]; CK(w == y[i]); } VV bs; for (auto& v : s.get_basis()) { bs.push_back(v); for (int i = 0; i < n; ++i) { MP w = 0; for (int j = 0; j < k; ++j) w += a[i][j] * v[j]; CK(w.val() == 0); } } EQ((int)bs.size(), k - r); if (bs.size()) { int u; gdet(bs, &u); EQ(u, k - r); } }
}
using BS = std::bitset<1400>;
static int brank(std::vector<BS> a, int k) { int r = 0, n = a.size(); for (int j = 0; j < k && r < n; ++j) { int p = r; while (p < n && !a[p][j]) ++p; if (p == n) continue; std::swap(a[p], a[r]); for (int i = r + 1; i < n; ++i) if (a[i][j]) a[i] ^= a[r]; ++r; } return r; }
static suisen::MatrixF2 mf(const std::vector<BS>& a, int k) { suisen::MatrixF2 m(a.size(), k); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < k; ++j) if (a[i][j]) m[i][j] = true; return m; }
static std::vector<BS> rb(Gen& g, Bulk& b, int n, int k) { std::vector<BS> a(n); int mode = g.raw(3); for (auto& r : a) for (int j = 0; j < k; ++j) r[j] = mode == 0 ? b.raw(n) < 3 : b.coin(); if (mode == 1) for (int t = n / 2; t < n; ++t) if (b.coin()) a[t] = a[b.raw(n / 2)] ^ a[b.raw(n / 2)]; return a; }
PBT(matrix_f2_large, 3, "every case: more than 500 rows and columns") {
    int n = g.in(500, 650), k = g.pick(std::vector<int>{ 512, 511, 640, 577 }), l = g.in(500, 700); Bulk b(g); g.nontrivial(); g.note(n, " ", k, " ", l); auto a = rb(g, b, n, k), c = rb(g, b, k, l); auto A = mf(a, k), C = mf(c, l); auto D = A * C; EQ((int)A.rank(), brank(a, k)); for (int t = 0; t < 200; ++t) { int i = b.raw(n); BS w; for (int j = 0; j < k; ++j) if (a[i][j]) w ^= c[j]; for (int j = 0; j < l; ++j) EQ((bool)D[i][j], w[j]); } auto T = A.transposed(); for (int t = 0; t < 5000; ++t) { int i = b.raw(n), j = b.raw(k); EQ((bool)T[j][i], a[i][j]); }
    auto q = rb(g, b, k, k); auto Q = mf(q, k); bool full = brank(q, k) == k; EQ(Q.det(), full); auto iv = Q.inv(); EQ((bool)iv, full); if (iv) CK(Q * *iv == suisen::MatrixF2::e1(k));
    suisen::DynamicBitSet y(n); BS yy; if (g.chance(2, 3)) { for (int j = 0; j < k; ++j) if (b.coin()) for (int i = 0; i < n; ++i) if (a[i][j]) yy.flip(i); } else for (int i = 0; i < n; ++i) yy[i] = b.coin(); for (int i = 0; i < n; ++i) y[i] = bool(yy[i]); auto ab = a; for (int i = 0; i < n; ++i) ab[i][k] = yy[i]; int r = brank(a, k); bool ok = brank(ab, k + 1) == r; auto s = suisen::gaussian_elimination_f2(A, y); EQ(s.has_solution(), ok); if (ok) { auto ap = [&](const suisen::DynamicBitSet& x) { BS z, o; for (int j = 0; j < k; ++j) z[j] = (bool)x[j]; for (int i = 0; i < n; ++i) o[i] = (a[i] & z).count() & 1; return o; }; CK(ap(s.solution()) == yy); EQ(s.dim(), k - r); std::vector<BS> bs; for (auto& v : s.basis()) { CK(ap(v).none()); BS z; for (int j = 0; j < k; ++j) z[j] = (bool)v[j]; bs.push_back(z); } EQ((int)bs.size(), k - r); EQ(brank(bs, k), k - r); }
}
PBT(graph_matrices_large, 3, "every case: more than 100 vertices") {
    int n = g.in(100, 180), m = g.in(n, 3000); Bulk b(g); g.nontrivial(); std::vector<std::pair<int, int>> e; for (int i = 1; i < n; ++i) e.emplace_back(b.raw(i), i); while ((int)e.size() < m) e.emplace_back(b.raw(n), b.raw(n)); VV L(n, std::vector<MP>(n)); for (auto [u, v] : e) if (u != v) L[u][u] += 1, L[v][v] += 1, L[u][v] -= 1, L[v][u] -= 1; VV R(n - 1, std::vector<MP>(n - 1)); for (int i = 0; i + 1 < n; ++i) for (int j = 0; j + 1 < n; ++j) R[i][j] = L[i + 1][j + 1]; CK(suisen::count_spanning_trees<MP>(n, e) == gdet(R));
    using C = suisen::CirculantMatrix<MP>; C::set_multiplication([](const std::vector<MP>& x, const std::vector<MP>& y) { return atcoder::convolution(x, y); }); int s = g.in(2000, 5000); std::vector<MP> u(s), v(s); for (auto& x : u) x = (i64)b.raw(P); for (auto& x : v) x = (i64)b.raw(P); C A(u); auto y = A * v; for (int t = 0; t < 50; ++t) { int i = b.raw(s); MP w = 0; for (int j = 0; j < s; ++j) w += u[(i - j + s) % s] * v[j]; CK(y[i] == w); } auto p = A.pow(3) * v, q = A * (A * y); CK(p == q);
    suisen::XorBase<u64> X; std::vector<u64> el; int d = g.in(1, 64); for (int t = 0; t < d; ++t) el.push_back(b.next()); for (int t = 0; t < 100000; ++t) { u64 x = 0; for (int q = 0; q < 3; ++q) x ^= el[b.raw(d)]; el.size() < 2000 ? el.push_back(x) : void(); X.add(x); } std::vector<u64> bs; int rk = 0; std::array<u64, 64> piv{}; for (auto x : X.get_basis()) { for (int i = 63; i >= 0 && x; --i) if (x >> i & 1) { if (!piv[i]) { piv[i] = x; ++rk; break; } x ^= piv[i]; } } EQ(rk, X.dim()); std::array<u64, 64> pv{}; int full = 0; for (auto x : el) for (int i = 63; i >= 0 && x; --i) if (x >> i & 1) { if (!pv[i]) { pv[i] = x; ++full; break; } x ^= pv[i]; } CK(X.dim() <= full && X.dim() >= full - 1);
}
