#include "large.hpp"
#include "poly.hpp"
#include <optional>
#include <deque>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007; using MQ = atcoder::static_modint<469762049>;
using FP = FPS<MP>; using FB = FPS<MB>; using GP = FormalPowerSeries<MP>; using GQ = FormalPowerSeries<MQ>;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); FB::set_multiplication([](const V<MB>& a, const V<MB>& b) { return arbitrary_mod_convolution(a, b); }); }
template <class F> static V<typename F::value_type> v(const F& f) { return V<typename F::value_type>(f.begin(), f.end()); }
template <class M> static V<M> mul(const V<M>& a, const V<M>& b, int n) { V<M> c; if constexpr (std::is_same_v<M, MB>) c = arbitrary_mod_convolution(a, b); else c = atcoder::convolution(a, b); c.resize(n); return c; }
#define EACH(fn) do { setup(); switch (g.raw(4)) { case 0: fn<FP>(g, 40000, 80000); break; case 1: fn<FB>(g, 5000, 12000); break; case 2: fn<GP>(g, 40000, 80000); break; default: fn<GQ>(g, 40000, 80000); } } while (0)
template <class M> static V<M> big(Gen& g, Bulk& b, int n) { V<M> a(n); if (g.chance(1, 4)) { for (int t = 0; t < 12; ++t) a[b.raw(n)] = (i64)b.raw(M::mod()); g.label("sparse"); } else for (auto& x : a) x = (i64)b.raw(M::mod()); return a; }
static int len(Gen& g, int lo, int hi) { switch (g.raw(3)) { case 0: { int p = 1; while (p < lo) p *= 2; return p + (int)g.raw(3) - 1; } default: return g.in(lo, hi); } }
template <class F> static void series(Gen& g, int lo, int hi) {
    using M = typename F::value_type; int n = len(g, lo, hi), k = g.coin() ? n : len(g, lo, hi); Bulk b(g); auto A = big<M>(g, b, n); g.note("n ", n, " k ", k); g.nontrivial(); auto Z = A; Z[0] = 0;
    if (A[0].val() == 0) A[0] = 7; { auto r = v(F(A).inv(k)); EQ((int)r.size(), k); CKM(mul(r, A, k) == pfit(V<M>{ 1 }, k), "inv"); }
    { auto e = v(F(Z).exp(k)); EQ((int)e.size(), k); CKM(e[0] == M(1) && pfit(pdiff(e), k - 1) == mul(pdiff(Z), e, k - 1), "exp"); } Z[0] = 1; { auto l = v(F(Z).log(k)); EQ((int)l.size(), k); CKM(l[0] == M(0) && mul(Z, pdiff(l), k - 1) == pfit(pdiff(Z), k - 1), "log"); }
}
PBT(inv_exp_log_large, 4, "every case: thousands of coefficients") { EACH(series); }
template <class F> static void powsq(Gen& g, int lo, int hi) {
    using M = typename F::value_type; int n = len(g, lo, hi) / 2, k = g.coin() ? n : len(g, lo, hi) / 2; Bulk b(g); auto A = big<M>(g, b, n); bool hg = g.coin(); int z = hg ? 0 : g.in(0, 20); for (int i = 0; i < z; ++i) A[i] = 0; A[z] = (i64)b.raw(M::mod() - 1) + 1; i64 e = hg ? b.range(2, 1000000000000000000LL) : b.range(2, 30); g.note("n ", n, " k ", k, " z ", z, " e ", e); g.nontrivial();
    auto r = v(F(A).pow(e, k)); EQ((int)r.size(), k); if (hg) { auto x = mul(pdiff(r), A, k - 1), y = mul(pdiff(A), r, k - 1); for (auto& c : y) c *= M(e); CKM(x == y && r[0] == A[0].pow(e), "pow"); } else { V<M> w = pfit(V<M>{ 1 }, k), s = pfit(A, k); for (i64 t = e; t; t >>= 1) { if (t & 1) w = mul(w, s, k); if (t > 1) s = mul(s, s, k); } CKM(r == w, "pow"); } auto Q = g.coin() ? mul(A, A, n) : A; auto q = F(Q).safe_sqrt(k); int lz = 0; while (lz < n && Q[lz].val() == 0) ++lz; if (q) { auto S = v(*q); EQ((int)S.size(), k); CKM(mul(S, S, k) == pfit(Q, k), "sqrt squared"); } else CKM(lz < n && (lz % 2 || Q[lz].pow((M::mod() - 1) / 2) != M(1)), "sqrt refused");
}
PBT(pow_sqrt_large, 4, "every case: thousands of coefficients") { EACH(powsq); }
template <class F> static void divi(Gen& g, int lo, int hi) {
    using M = typename F::value_type; int n = len(g, lo, hi), m = g.coin() ? g.in(2, 200) : g.in(2, n); Bulk b(g); auto A = big<M>(g, b, n), B = big<M>(g, b, m); B.back() = 3; g.note("n ", n, " m ", m); g.nontrivial(); auto [q, r] = F(A).div_mod(F(B)); auto Q = v(q), R = v(r); CK((int)ptrim(R).size() < m); for (int t = 0; t < 3; ++t) { M x = (i64)b.raw(M::mod()); CKM(peval(Q, x) * peval(B, x) + peval(R, x) == peval(A, x), "division identity"); M y = peval(A, x) * peval(B, x); if (!t) CKM(peval(v(F(A) * F(B)), x) == y, "product"); } CK(F(A) / F(B) == q); CK(F(A) % F(B) == r); M c = (i64)b.raw(M::mod()); CK(F(A).eval(c) == peval(A, c));
}
PBT(division_large, 4, "every case: thousands of coefficients") { EACH(divi); }
template <class F> static void prods(Gen& g, int lo, int) {
    using M = typename F::value_type; Bulk b(g); g.nontrivial(); std::vector<F> fs; int t = g.pick(std::vector<int>{ 20, 3000, lo }); g.note("factors ", t); for (int i = 0; i < t; ++i) { V<M> f(t > 100 ? 2 + b.raw(lo / t + 1) : b.raw(2 * lo / t) + 1); for (auto& x : f) x = (i64)b.raw(M::mod()); fs.push_back(F(f)); } auto p = v(F::prod(fs)); for (int k = 0; k < 2; ++k) { M x = (i64)b.raw(M::mod()), y = 1; for (auto& f : fs) y *= peval(v(f), x); CKM(peval(p, x) == y, "product of a list"); }
    using R = RationalFPS<F>; std::vector<R> rs; int u = g.in(200, 2000); for (int i = 0; i < u; ++i) rs.push_back(R(F(V<M>{ (i64)b.raw(M::mod()) }), F(V<M>{ 1, (i64)b.raw(M::mod()) }))); auto s = R::sum(rs); M x = (i64)b.raw(M::mod()), y = 0; for (auto& r : rs) y += peval(v(r.num), x) / peval(v(r.den), x); CKM(peval(v(s.num), x) == y * peval(v(s.den), x), "sum of fractions");
}
PBT(list_products_large, 4, "every case: many factors") { EACH(prods); }
PBT(relaxed_series_large, 2, "every case: more than 2^14 appended coefficients") {
    int n = g.in(17000, 20000); Bulk b(g); g.nontrivial(); V<MP> A(n); for (auto& x : A) x = (i64)b.raw(P); i64 k = b.range(2, 1000000000000LL); RelaxedInv<MP> ri; RelaxedExp<MP> re; RelaxedLog<MP> rl; RelaxedPow<MP> rp(k); RelaxedSqrt<MP> rs; V<MP> I, E, L, W, S; auto f = [&](int i, MP x) { return i ? A[i] : x; }; for (int i = 0; i < n; ++i) { I.push_back(ri.append(f(i, 5))); E.push_back(re.append(f(i, 0))); L.push_back(rl.append(f(i, 1))); W.push_back(rp.append(f(i, 2))); S.push_back(*rs.append(f(i, 9))); }
    auto at = [&](MP x) { auto B = A; B[0] = x; return B; }; CKM(mul(I, at(5), n) == pfit(V<MP>{ 1 }, n), "inv"); CKM(mul(pdiff(at(0)), E, n - 1) == pdiff(E), "exp"); CKM(mul(pdiff(L), at(1), n - 1) == pdiff(at(1)), "log"); CKM(mul(S, S, n) == at(9), "sqrt"); auto B = at(2); V<MP> x = mul(pdiff(W), B, n - 1), y = mul(pdiff(B), W, n - 1); for (auto& c : y) c *= k; CKM(x == y && W[0] == MP(2).pow(k), "pow");
}
