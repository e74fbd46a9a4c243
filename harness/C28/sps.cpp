#include "poly.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
template <class M> using Sv = std::vector<M>;
template <class M> static Sv<M> smul(const Sv<M>& a, const Sv<M>& b) { int n = a.size(); Sv<M> c(n); for (int s = 0; s < n; ++s) for (int t = s;; t = (t - 1) & s) { c[s] += a[t] * b[s ^ t]; if (!t) break; } return c; }
template <class M> static Sv<M> gset(Gen& g, int k) { Sv<M> v(1 << k); int mode = g.raw(3); for (auto& x : v) x = mode == 0 ? M((int)g.raw(3)) : mode == 1 ? (g.chance(1, 4) ? M((i64)g.raw(M::mod())) : M(0)) : M((i64)g.raw(M::mod())); return v; }
// exp by definition: sum over set partitions = recursion on the lowest element
template <class M> static Sv<M> sexp(const Sv<M>& f) { int n = f.size(); Sv<M> e(n); e[0] = 1; for (int s = 1; s < n; ++s) { int low = s & -s, r = s ^ low; for (int t = r;; t = (t - 1) & r) { e[s] += f[low | t] * e[r ^ t]; if (!t) break; } } return e; }
template <class M, class SPS, class Zeta> static void sps(Gen& g, int maxk) {
    int k = g.in(0, maxk), n = 1 << k; auto A = gset<M>(g, k), B = gset<M>(g, k); M c = (i64)g.raw(M::mod()); if (c == M(0)) c = 1; SPS a(A), b(B); g.note("k ", k);
    EQ(a.cardinality(), k); { SPS e = SPS::one(k); Sv<M> o(n); o[0] = 1; CKM(Sv<M>(e) == o, "one"); SPS z((size_t)k); CKM(Sv<M>(z) == Sv<M>(n), "zero"); SPS w((size_t)k, c); CKM(Sv<M>(w) == Sv<M>(n, c), "constant"); }
    auto is = [&](const SPS& x, const Sv<M>& y, const char* w) { CKM(Sv<M>(x) == y, w); };
    Sv<M> s(n), d(n), ng(n), sc(n), dv(n); for (int i = 0; i < n; ++i) s[i] = A[i] + B[i], d[i] = A[i] - B[i], ng[i] = -A[i], sc[i] = A[i] * c, dv[i] = A[i] / c;
    is(a + b, s, "+"); is(a - b, d, "-"); is(-a, ng, "negation"); is(+a, A, "unary +"); is(a * c, sc, "* c"); is(c * a, sc, "c *"); is(a / c, dv, "/ c"); auto P = smul(A, B); is(a * b, P, "product"); { SPS t = a; t *= t; is(t, smul(A, A), "square in place"); }
    if (k) { is(a.cut_lower(n / 2), Sv<M>(A.begin(), A.begin() + n / 2), "cut_lower"); is(a.cut_upper(n / 2), Sv<M>(A.begin() + n / 2, A.end()), "cut_upper"); SPS lo = a.cut_lower(n / 2); lo.concat(a.cut_upper(n / 2)); is(lo, A, "concat"); SPS q = a.cut_lower(n / 2); q.set_cardinality(k); auto w = A; std::fill(w.begin() + n / 2, w.end(), M(0)); is(q, w, "set_cardinality"); }
    { Zeta za = a.zeta(), zb = b.zeta(); is(za.mobius(), A, "zeta/mobius"); is((za + zb).mobius(), s, "zeta +"); is((za - zb).mobius(), d, "zeta -"); is((-za).mobius(), ng, "zeta negation"); is((za * zb).mobius(), P, "zeta product"); is((za * c).mobius(), sc, "zeta scale"); is((c * za).mobius(), sc, "zeta scale l"); is((za / c).mobius(), dv, "zeta / c"); auto zs = za; zs *= zs; zs += zb; auto w = smul(A, A); for (int i = 0; i < n; ++i) w[i] += B[i]; is(zs.mobius_inplace(), w, "zeta chain"); }
    { auto F = A; F[0] = 0; SPS f(F); auto e = f.exp(); is(e, sexp(F), "exp"); is(e.log(), F, "log of exp"); is(f.zeta().exp().mobius(), sexp(F), "zeta exp"); SPS l(A); l[0] = 1; auto lg = l.log(); CKM(lg[0] == M(0), "log constant"); CKM(sexp<M>(lg) == Sv<M>(l), "exp of log"); is(l.zeta().log().mobius(), lg, "zeta log"); }
    { auto F = A; if (F[0] == M(0)) F[0] = c; SPS f(F); Sv<M> one(n); one[0] = 1; CKM(smul<M>(F, f.inv()) == one, "inverse"); CKM(smul<M>(F, f.zeta().inv().mobius()) == one, "zeta inverse"); F[0] = c * c; SPS q(F); auto r = q.sqrt(); CKM(smul<M>(r, r) == F, "square root"); auto r2 = q.zeta().sqrt().mobius(); CKM(smul<M>(r2, r2) == F, "zeta square root"); }
    { i64 e = g.chance(1, 3) ? (i64)g.raw(1000000000000000000ULL) : g.in(0, 12); auto F = A; if (g.coin()) F[0] = 0; SPS f(F); Sv<M> w(n), bb = F; w[0] = 1; for (i64 x = e; x; x >>= 1) { if (x & 1) w = smul(w, bb); bb = smul(bb, bb); } is(f.pow(e), w, "power"); is(f.zeta().pow(e).mobius(), w, "zeta power"); }
    g.nontrivial(k >= 3);
}
PBT(set_power_series, 1500, "at least 3 elements") { if (g.coin()) sps<MP, SetPowerSeries<MP>, SetPowerSeries<MP>::ZetaSPS>(g, 7); else sps<MB, SetPowerSeries<MB>, SetPowerSeries<MB>::ZetaSPS>(g, 6); }
PBT(array_set_power_series, 1500, "at least 3 elements") { if (g.coin()) sps<MP, ArraySetPowerSeries<MP, 8>, ArraySetPowerSeries<MP, 8>::ZetaSPS>(g, 7); else sps<MB, ArraySetPowerSeries<MB, 6>, ArraySetPowerSeries<MB, 6>::ZetaSPS>(g, 5); }
PBT(polynomial_composite, 2000, "at least 3 elements and degree at least 2") { int k = g.in(0, 6), n = 1 << k, d = g.in(0, 9); auto A = gset<MP>(g, k); auto f = gpoly<MP>(g, d); auto r = SetPowerSeries<MP>::polynomial_composite(f, SetPowerSeries<MP>(A)); Sv<MP> w(n); for (int i = d; i-- > 0;) { w = smul(w, A); w[0] += f[i]; } CKM(Sv<MP>(r) == w, "f(g)"); g.nontrivial(k >= 3 && d >= 3); }
