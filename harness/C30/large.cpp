#include "large.hpp"
#include "poly.hpp"
#include <optional>
#include <deque>
#include <map>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/compose.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/compose_inv.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/subset_sum.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
using FP = FPS<MP>; using FB = FPS<MB>; using GP = FormalPowerSeries<MP>;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); FB::set_multiplication([](const V<MB>& a, const V<MB>& b) { return arbitrary_mod_convolution(a, b); }); }
template <class F> static V<typename F::value_type> v(const F& f) { return V<typename F::value_type>(f.begin(), f.end()); }
#define EACH(fn, n, m) do { setup(); switch (g.raw(3)) { case 0: fn<FP>(g, n); break; case 1: fn<FB>(g, m); break; default: fn<GP>(g, n); } } while (0)
template <class M> static V<M> rnd(Bulk& b, int n) { V<M> a(n); for (auto& x : a) x = (i64)b.raw(M::mod()); return a; }
template <class M> static V<M> pts(Gen& g, Bulk& b, int n) { V<M> x; std::set<unsigned> seen; int mode = g.raw(3); i64 base = b.raw(M::mod()); while ((int)x.size() < n) { M y = mode == 0 ? M((i64)b.raw(M::mod())) : mode == 1 ? M(base + (i64)x.size()) : M((i64)b.raw(3 * n)); if (seen.insert(y.val()).second) x.push_back(y); } return x; }
static int near_pow2(Gen& g, int lim) { int p = 1; while (2 * p <= lim) p *= 2; switch (g.raw(3)) { case 0: return p + (int)g.raw(3) - 1; default: return g.in(lim / 2, lim); } }
template <class F> static void points(Gen& g, int lim) {
    using M = typename F::value_type; int n = near_pow2(g, lim), d = g.coin() ? near_pow2(g, lim) : g.in(1, lim / 10); Bulk b(g); g.nontrivial(); g.note("points ", n, " coefficients ", d); auto xs = pts<M>(g, b, n); auto A = rnd<M>(b, d); auto ys = multi_point_eval(F(A), xs); EQ((int)ys.size(), n); for (int t = 0; t < 100; ++t) { int i = t ? b.raw(n) : n - 1; CKM(ys[i] == peval(A, xs[i]), "multi-point value " + std::to_string(i)); }
    auto vs = rnd<M>(b, n); auto p = v(polynomial_interpolation<F>(xs, vs)); CK((int)ptrim(p).size() <= n); for (int t = 0; t < 100; ++t) { int i = t ? b.raw(n) : n - 1; CKM(peval(p, xs[i]) == vs[i], "interpolating polynomial"); } M t = (i64)b.raw(M::mod()), w = peval(p, t); CKM(lagrange_interpolation<F>(xs, vs, t) == w, "Lagrange");
}
PBT(evaluation_and_interpolation_large, 3, "every case: thousands of points") { EACH(points, 20000, 3000); }
template <class F> static void shifts(Gen& g, int lim) {
    using M = typename F::value_type; int n = near_pow2(g, lim); Bulk b(g); g.nontrivial(); g.note("n ", n); auto A = rnd<M>(b, n); M c = (i64)b.raw(M::mod()); auto s = v(translate(F(A), c)); CK((int)s.size() == n); for (int t = 0; t < 3; ++t) { M x = (i64)b.raw(M::mod()); CKM(peval(s, x) == peval(A, x + c), "f(x + c)"); }
    int m = n / 8; auto B = rnd<M>(b, m), p = pts<M>(g, b, m); auto q = convert_to_newton_basis(F(B), p); EQ((int)q.size(), m); for (int t = 0; t < 3; ++t) { M x = (i64)b.raw(M::mod()), y = 0, z = 1; for (int i = 0; i < m; ++i) y += q[i] * z, z *= x - p[i]; CKM(y == peval(B, x), "Newton basis"); }
    int d = g.in(1, 2000), k = g.in(1, 70000); if constexpr (std::is_same_v<M, MP>) { MP t = g.coin() ? MP((i64)b.raw(P)) : MP((int)b.raw(3 * n)); auto D = rnd<MP>(b, 40); V<MP> ys; for (int i = 0; i < n; ++i) ys.push_back(peval(D, MP(i))); auto w = suisen::shift_of_sampling_points(ys, t, k); EQ((int)w.size(), k); for (int i = 0; i < k; ++i) CKM(w[i] == peval(D, t + i), "f(t + i), small degree");
        auto S = rnd<MP>(b, d); w = suisen::shift_of_sampling_points(S, t, k); V<MP> f(d, 1); for (int i = 1; i < d; ++i) f[i] = f[i - 1] * i; V<MP> cf(d); for (int i = 0; i < d; ++i) cf[i] = S[i] / (f[i] * f[d - 1 - i]) * ((d - 1 - i) % 2 ? -1 : 1); for (int q = 0; q < 8; ++q) { int i = b.raw(k); MP x = t + i, r = 0; if ((int)x.val() < d) r = S[x.val()]; else { MP all = 1; for (int j = 0; j < d; ++j) all *= x - j; V<MP> pre(d + 1, 1), suf(d + 1, 1); for (int j = 0; j < d; ++j) pre[j + 1] = pre[j] * (x - j); for (int j = d; j--;) suf[j] = suf[j + 1] * (x - j); for (int j = 0; j < d; ++j) r += cf[j] * pre[j] * suf[j + 1]; } CKM(w[i] == r, "f(t + i)"); } }
}
PBT(shifts_large, 3, "every case: thousands of coefficients") { EACH(shifts, 70000, 8000); }
template <class F> static void pgcd(Gen& g, int lim) {
    using M = typename F::value_type; int n = g.in(lim / 2, lim), m = g.in(lim / 4, lim), c = g.coin() ? 1 : g.in(2, lim / 3); Bulk b(g); g.nontrivial(); g.note("sizes ", n, " ", m, " common ", c); auto C = rnd<M>(b, c); C.back() = 1; auto X = rnd<M>(b, n), Y = rnd<M>(b, m); if (g.coin() && n > m) for (int i = m; i < n; ++i) X[i] = 0, X[n - 1] = 1; F a = F(X) * F(C), h = F(Y) * F(C); auto [x, y, d] = polynomial_ext_gcd(a, h); CKM(v(d) == C, "gcd"); CKM(v(polynomial_gcd(a, h)) == C, "polynomial_gcd"); for (int t = 0; t < 3; ++t) { M z = (i64)b.raw(M::mod()); CKM(peval(v(x), z) * peval(v(a), z) + peval(v(y), z) * peval(v(h), z) == peval(C, z), "Bezout identity"); } if (c == 1) { auto w = polynomial_inv(a, h); auto r = (w * a) % h; CKM(ptrim(v(r)) == V<M>{ 1 }, "inverse"); }
}
PBT(gcd_large, 3, "every case: hundreds of coefficients") { EACH(pgcd, 5000, 800); }
template <class F> static void recur(Gen& g, int k) {
    using M = typename F::value_type; Bulk b(g); g.nontrivial(); auto c = rnd<M>(b, k), a = rnd<M>(b, k); if (c[k - 1].val() == 0) c[k - 1] = 1; V<M> ch(k + 1); ch[k] = 1; for (int j = 0; j < k; ++j) ch[k - 1 - j] -= c[j]; auto red = [&](V<M> p) { while ((int)p.size() > k) { M t = p.back(); int s = p.size() - 1 - k; for (int i = 0; i < k; ++i) p[s + i] -= t * ch[i]; p.pop_back(); } return pfit(p, k); }; u64 N = b.next() >> g.in(0, 20); V<M> r = red(V<M>{ 1 }); for (int i = 63; i >= 0; --i) { r = red(pmul(r, r)); if (N >> i & 1) { r.insert(r.begin(), M(0)); r = red(r); } } M w = 0; for (int i = 0; i < k; ++i) w += r[i] * a[i]; CKM(nth_term_of_linearly_recurrent_sequence(F(a), F(c), N) == w, "far term");
    auto s = a; while ((int)s.size() < 2 * k + 10) { M t = 0; for (int j = 0; j < k; ++j) t += c[j] * s[s.size() - 1 - j]; s.push_back(t); } auto q = find_linear_recuurence(s); EQ((int)q.size(), k + 1); CK(q[0] == M(1)); for (int j = 0; j < k; ++j) CKM(q[j + 1] == c[j], "recurrence");
}
PBT(recurrences_large, 3, "every case: order of hundreds") { int k = g.in(150, 400); EACH(recur, k, k); }
static V<MP> mulc(const V<MP>& a, const V<MP>& b, int n) { return pfit(atcoder::convolution(a, b), n); }
static V<MP> powc(V<MP> s, u64 e, int n) { V<MP> w = pfit(V<MP>{ 1 }, n); s = pfit(s, n); for (; e; e >>= 1) { if (e & 1) w = mulc(w, s, n); if (e > 1) s = mulc(s, s, n); } return w; }
PBT(composition_large, 2, "every case: thousands of coefficients") {
    int n = g.in(1500, 3000), nf = g.in(1000, 3000); Bulk b(g); g.nontrivial(); g.note("n ", n, " nf ", nf); auto h = rnd<MP>(b, n); V<MP> f(nf), w(n); for (int t = 0; t < 8; ++t) f[t ? b.raw(nf) : nf - 1] = (i64)b.raw(P); for (int i = 0; i < nf; ++i) if (f[i].val()) { auto p = powc(h, i, n); for (int j = 0; j < n; ++j) w[j] += f[i] * p[j]; } CK(suisen::compose(f, h, n) == w);
    h[0] = 0; if (h[1].val() == 0) h[1] = 1; auto r = compositional_inv(h, n); EQ((int)r.size(), n); CK(r[0].val() == 0); V<MP> x(h.begin() + 1, h.end()); FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); auto ih = pinv(x, n); for (int t = 0; t < 6; ++t) { int k = t ? 1 + b.raw(n - 1) : n - 1; CKM(r[k] * k == powc(ih, k, k)[k - 1], "Lagrange inversion at " + std::to_string(k)); }
}
template <class F> static void scaled(Gen& g, int n) {
    Bulk b(g); g.nontrivial(); int d = g.in(5000, 20000); auto f = rnd<MP>(b, d); auto r = v(compose_exp(F(f), n)); EQ((int)r.size(), n); MP fct = 1; std::map<int, int> at; for (int t = 0; t < 30; ++t) at[b.raw(n)] = 1; for (int j = 0; j < n; ++j) { if (j) fct *= j; if (at.count(j)) { MP w = 0; for (int i = 0; i < d; ++i) w += f[i] * MP(i).pow(j); CKM(r[j] * fct == w, "f(e^x)"); } }
    int m = b.in(2, 1000000000); MP q = (i64)b.raw(P); auto A = rnd<MP>(b, n); if (g.coin()) A[0] = 0; V<MP> w = pfit(V<MP>{ 1 }, n), cur = A; MP rc = q, sh = 1; auto sub = [&](V<MP> p, MP q) { MP e = 1; for (auto& x : p) x *= e, e *= q; return p; }; for (int t = m; t; t >>= 1) { if (t & 1) w = mulc(w, sub(cur, sh), n), sh *= rc; cur = mulc(cur, sub(cur, rc), n); rc *= rc; } CKM(v(suisen::prod_f_rk_x(F(A), q, m, n)) == w, "product of f(r^k x)");
    int N = g.in(20000, 50000); std::vector<int> it(500); for (auto& x : it) x = b.raw(4) ? b.in(1, N / 10) : b.in(1, 5); V<MP> c(N + 1); c[0] = 1; for (int x : it) for (int s = N; s >= x; --s) c[s] += c[s - x]; CKM(V<MP>(subset_sum<F>(N, it)) == c, "subset counts");
    int B = g.in(200, 400); std::vector<int> h(B); for (auto& x : h) x = b.raw(B + 1); std::sort(h.begin(), h.end()); V<MP> R(B + 1); R[0] = 1; for (int i = 0; i < B; ++i) for (int k = i; k >= 0; --k) R[k + 1] += R[k] * std::max(0, h[i] - k); CKM(peq(v(rook_polynomial_ferrers_board<F>(h)), R), "rook polynomial");
}
PBT(products_and_counts_large, 2, "every case: thousands of coefficients") { setup(); int n = g.in(8000, 17000); if (g.coin()) scaled<FP>(g, n); else scaled<GP>(g, n); }
