#include "poly.hpp"
#include <optional>
#include <algorithm>
#include <deque>
#include <map>
#include <numeric>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
using FP = FPS<MP>; using FB = FPS<MB>; using GP = FormalPowerSeries<MP>;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); FB::set_multiplication([](const V<MB>& a, const V<MB>& b) { return arbitrary_mod_convolution(a, b); }); }
template <class F> static V<typename F::value_type> v(const F& f) { return V<typename F::value_type>(f.begin(), f.end()); }
#define EACH(fn) do { setup(); switch (g.raw(3)) { case 0: fn<FP>(g); break; case 1: fn<FB>(g); break; default: fn<GP>(g); } } while (0)
template <class M> static V<M> distinct(Gen& g, int n) { V<M> x; std::set<unsigned> seen; int mode = g.raw(3); i64 base = g.raw(M::mod()); while ((int)x.size() < n) { M y = mode == 0 ? M((i64)g.raw(M::mod())) : mode == 1 ? M(base + (i64)x.size()) : M((i64)g.raw(2 * n + 2)); if (seen.insert(y.val()).second) x.push_back(y); } if (g.coin()) g.shuffle(x); return x; }
template <class F> static void points(Gen& g) {
    using M = typename F::value_type; int n = plen(g, 1, 130), d = plen(g, 0, 200); auto xs = distinct<M>(g, n); auto A = gpoly<M>(g, d); g.note("points ", n, " coefficients ", d);
    { auto ms = xs; if (n && g.coin()) for (auto& x : ms) if (g.chance(1, 4)) x = ms[g.raw(n)]; if (g.chance(1, 20)) ms.clear(); auto ys = multi_point_eval(F(A), ms); EQ(ys.size(), ms.size()); for (size_t i = 0; i < ms.size(); ++i) CKM(ys[i] == peval(A, ms[i]), "multi-point value"); }
    { auto B = gpoly<M>(g, n); V<M> ys; for (auto x : xs) ys.push_back(peval(B, x)); auto p = v(polynomial_interpolation<F>(xs, ys)); CKM(peq(p, B), "interpolating polynomial"); M t = g.coin() ? xs[g.raw(n)] : M((i64)g.raw(M::mod())); M w = peval(B, t); CKM(lagrange_interpolation_naive(xs, ys, t) == w, "naive Lagrange"); CKM(lagrange_interpolation<F>(xs, ys, t) == w, "fast Lagrange"); M a = (i64)g.raw(M::mod() - 1) + 1, b = (i64)g.raw(M::mod()); V<M> yp, y0; for (int i = 0; i < n; ++i) yp.push_back(peval(B, a * i + b)), y0.push_back(peval(B, M(i))); if (g.chance(1, 4)) t = a * (int)g.raw(n) + b; w = peval(B, t); CKM(lagrange_interpolation_arithmetic_progression(a, b, yp, t) == w, "arithmetic progression"); if (g.chance(1, 4)) t = (int)g.raw(n), w = peval(B, t); CKM(lagrange_interpolation_arithmetic_progression(y0, t) == w, "0, 1, 2, ..."); }
    { M c = g.chance(1, 4) ? M((int)g.raw(2)) : M((i64)g.raw(M::mod())); auto s = v(translate(F(A), c)); V<M> w; for (int i = d; i-- > 0;) w = padd(pmul(w, V<M>{ c, 1 }), V<M>{ A[i] }); CKM(peq(s, w), "f(x + c)"); }
    { auto B = gpoly<M>(g, n); V<M> p = g.coin() ? xs : gpoly<M>(g, n); auto b = convert_to_newton_basis(F(B), p); EQ((int)b.size(), n); V<M> w; for (int i = n; i-- > 0;) w = padd(pmul(w, V<M>{ -p[i], 1 }), V<M>{ b[i] }); CKM(peq(w, B), "Newton basis"); }
    g.nontrivial(n >= 60 && d >= 60);
}
PBT(evaluation_and_interpolation, 900, "at least 60 points and coefficients") { EACH(points); }
PBT(shift_of_sampling_points, 800, "at least 60 samples and shifted points") { int n = plen(g, 1, 150), m = plen(g, 0, 150); auto A = gpoly<MP>(g, n); MP t = g.chance(1, 3) ? MP((int)g.raw(200)) : g.chance(1, 4) ? MP(-(int)g.raw(200)) : MP((i64)g.raw(P)); V<MP> ys, w; for (int i = 0; i < n; ++i) ys.push_back(peval(A, MP(i))); for (int i = 0; i < m; ++i) w.push_back(peval(A, t + i)); g.note("n ", n, " m ", m, " t ", t.val()); CKM(suisen::shift_of_sampling_points(ys, t, m) == w, "f(t + i)"); if (n + m < 120) { auto B = V<MB>(n); for (auto& x : B) x = (i64)g.raw(MB::mod()); V<MB> yb, wb; MB tb = (i64)g.raw(MB::mod()); for (int i = 0; i < n; ++i) yb.push_back(peval(B, MB(i))); for (int i = 0; i < m; ++i) wb.push_back(peval(B, tb + i)); CK(suisen::shift_of_sampling_points(yb, tb, m, [](const V<MB>& a, const V<MB>& b) { return arbitrary_mod_convolution(a, b); }) == wb); } g.nontrivial(n >= 60 && m >= 60); }
template <class M> static V<M> euclid(V<M> a, V<M> b) { a = ptrim(a), b = ptrim(b); while (b.size()) { while (a.size() >= b.size()) { M c = a.back() / b.back(); int s = a.size() - b.size(); for (size_t i = 0; i < b.size(); ++i) a[s + i] -= c * b[i]; a.pop_back(); a = ptrim(a); } std::swap(a, b); } if (a.size()) a = pscale(a, a.back().inv()); return a; }
template <class F> static void pgcd(Gen& g) {
    using M = typename F::value_type; V<M> A, B; bool big = g.chance(1, 8);
    if (g.coin()) { int n = big ? g.in(250, 420) : plen(g, 0, 80), m = big ? g.in(130, 420) : plen(g, 0, 80); A = gpoly<M>(g, n), B = gpoly<M>(g, m); if (g.coin()) { auto C = gpoly<M>(g, g.in(0, 40)); A = pmul(A, C), B = pmul(B, C); } }
    else { // prescribed quotient sequence, so that degree jumps happen anywhere
        A = ptrim(gpoly<M>(g, g.in(0, 5))); int lim = big ? 400 : 40; while ((int)A.size() < lim) { int q = g.chance(1, 8) ? g.in(2, big ? 150 : 12) : 2; auto Q = gpoly<M>(g, q); if (Q.back() == M(0)) Q.back() = 1; if (A.empty()) A = { M(1) }; auto C = padd(pmul(A, Q), B); B = A; A = C; if (g.chance(1, 30)) break; } }
    if (g.coin()) std::swap(A, B); g.note("sizes ", A.size(), " ", B.size()); F a(A), b(B); auto G = euclid(A, B); auto [x, y, d] = polynomial_ext_gcd(a, b); CKM(v(d) == G, "gcd is the monic greatest common divisor"); CKM(peq(padd(pmul(v(x), A), pmul(v(y), B)), G), "Bezout identity"); CKM(v(polynomial_gcd(a, b)) == G, "polynomial_gcd"); { auto [u, e] = polynomial_gcd_inv(a, b); CKM(v(e) == G, "gcd_inv gcd"); if (ptrim(B).size()) CKM((F(psub(pmul(v(u), A), G)) % b) == F{}, "a x = g modulo m"); } if (G == V<M>{ 1 } && ptrim(B).size() > 1) { auto w = v(polynomial_inv(a, b)); CKM((F(psub(pmul(w, A), V<M>{ 1 })) % b) == F{}, "a x = 1 modulo m"); } g.label(big ? "half-gcd" : "small"); g.nontrivial(ptrim(A).size() >= 10 && ptrim(B).size() >= 10);
}
PBT(gcd, 700, "both polynomials have degree at least 9") { EACH(pgcd); }
template <class F> static void recur(Gen& g) { using M = typename F::value_type; int k = g.in(0, g.chance(1, 8) ? 70 : 8); auto c = gpoly<M>(g, k); int extra = g.in(0, 5); auto a = gpoly<M>(g, k); for (int t = 0; t < extra; ++t) { M s = 0; for (int j = 0; j < k; ++j) s += c[j] * a[a.size() - 1 - j]; a.push_back(s); } auto all = a; int N = g.len(0, 300); while ((int)all.size() <= N) { M s = 0; for (int j = 0; j < k; ++j) s += c[j] * all[all.size() - 1 - j]; all.push_back(s); } g.note("k ", k, " n ", N); CKM(nth_term_of_linearly_recurrent_sequence(F(a), F(c), N) == all[N], "n-th term"); auto Pn = gpoly<M>(g, g.in(0, 12)), Q = gpoly<M>(g, g.in(1, 8)); Q[0] = (i64)g.raw(M::mod() - 1) + 1; CKM(bostan_mori(F(Pn), F(Q), N) == pmul(Pn, pinv(Q, N + 1), N + 1)[N], "[x^n] P/Q");
    if (g.chance(1, 3) && k) { unsigned long long big = g.u64any(); // far term: x^n modulo the characteristic polynomial
        V<M> ch(k + 1); ch[k] = 1; for (int j = 0; j < k; ++j) ch[k - 1 - j] -= c[j]; auto red = [&](V<M> p) { while ((int)p.size() > k) { M t = p.back(); int s = p.size() - 1 - k; for (int i = 0; i <= k; ++i) p[s + i] -= t * ch[i]; p.pop_back(); } return pfit(p, k); }; V<M> r = red(V<M>{ 1 }), b = red(V<M>{ 0, 1 }); for (auto e = big; e; e >>= 1) { if (e & 1) r = red(pmul(r, b)); b = red(pmul(b, b)); } M w = 0; for (int i = 0; i < k; ++i) w += r[i] * a[i]; CKM(nth_term_of_linearly_recurrent_sequence(F(a), F(c), big) == w, "far term"); } g.nontrivial(k >= 3 && N > k); }
PBT(linear_recurrences, 2500, "recurrence of order at least 3") { EACH(recur); }
// shortest recurrence, checked by elimination: order L works iff the Hankel system is solvable
template <class M> static bool order_ok(const V<M>& s, int L) { int n = s.size(); std::vector<V<M>> r; for (int i = L; i < n; ++i) { V<M> row(L + 1); for (int j = 1; j <= L; ++j) row[j - 1] = s[i - j]; row[L] = s[i]; r.push_back(row); } int rk = 0; for (int c = 0; c <= L; ++c) { int p = -1; for (int i = rk; i < (int)r.size(); ++i) if (r[i][c].val()) { p = i; break; } if (p < 0) continue; if (c == L) return false; std::swap(r[p], r[rk]); M iv = r[rk][c].inv(); for (int i = rk + 1; i < (int)r.size(); ++i) if (r[i][c].val()) { M f = r[i][c] * iv; for (int j = c; j <= L; ++j) r[i][j] -= f * r[rk][j]; } ++rk; } return true; }
template <class M> static void bm(Gen& g) { int n = g.len(0, 26); V<M> s(n); int k = g.in(0, 8); auto c = gpoly<M>(g, k); for (int i = 0; i < n; ++i) { if (i < k) s[i] = (i64)g.raw(M::mod()); else for (int j = 0; j < k; ++j) s[i] += c[j] * s[i - 1 - j]; } int mode = g.raw(3); if (mode == 0) for (auto& x : s) x = (i64)g.raw(M::mod()); if (mode == 1 && n) s[g.raw(n)] += 1; std::string t; for (auto x : s) t += std::to_string(x.val()) + " "; g.note("mod ", M::mod(), " s ", t); auto r = find_linear_recuurence(s); int L = (int)r.size() - 1; CK(L >= 0 && r[0] == M(1)); for (int i = L; i < n; ++i) { M x = 0; for (int j = 1; j <= L; ++j) x += r[j] * s[i - j]; CKM(x == s[i], "recurrence reproduces the sequence"); } if (L) CKM(!order_ok(s, L - 1), "a shorter recurrence exists"); g.nontrivial(n >= 6 && L >= 2); }
PBT(berlekamp_massey, 5000, "length at least 6 and order at least 2", 8, 20) { switch (g.raw(4)) { case 0: bm<atcoder::static_modint<2>>(g); break; case 1: bm<atcoder::static_modint<3>>(g); break; case 2: bm<atcoder::static_modint<7>>(g); break; default: bm<MP>(g); } }
