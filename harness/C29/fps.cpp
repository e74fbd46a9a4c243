#include "poly.hpp"
#include <optional>
#include <algorithm>
#include <deque>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007; using MQ = atcoder::static_modint<469762049>;
using FP = FPS<MP>; using FB = FPS<MB>; using GP = FormalPowerSeries<MP>; using GQ = FormalPowerSeries<MQ>;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); FB::set_multiplication([](const V<MB>& a, const V<MB>& b) { return arbitrary_mod_convolution(a, b); }); }
template <class F> static V<typename F::value_type> v(const F& f) { return V<typename F::value_type>(f.begin(), f.end()); }
#define EACH(fn, ...) do { setup(); switch (g.raw(4)) { case 0: fn<FP>(g, ##__VA_ARGS__); break; case 1: fn<FB>(g, ##__VA_ARGS__); break; case 2: fn<GP>(g, ##__VA_ARGS__); break; default: fn<GQ>(g, ##__VA_ARGS__); } } while (0)
template <class F> static void ring(Gen& g) {
    using M = typename F::value_type; int n = plen(g, 0, 260), m = plen(g, 0, 260); if (g.chance(1, 5)) m = std::max(0, 128 + g.in(-2, 14) - n); V<M> A = gpoly<M>(g, n), B = gpoly<M>(g, m); F a(A), b(B); M c = (i64)g.raw(M::mod()); int sh = g.in(0, n + 4); g.note("n ", n, " m ", m, " mod ", M::mod());
    EQ(a.size(), n); EQ(a.deg(), n - 1); CK(peq(v(a + b), padd(A, B))); CK(peq(v(a - b), psub(A, B))); auto P = pmul(A, B); CKM(peq(v(a * b), P), "product"); CK(peq(v(-a), psub(V<M>{}, A))); CK(v(+a) == A); CK(v(a * c) == pscale(A, c)); CK(v(c * a) == pscale(A, c)); if (c.val()) CK(v(a / c) == pscale(A, c.inv())); CK(peq(v(a + c), padd(A, V<M>{ c }))); CK(peq(v(c + a), padd(A, V<M>{ c }))); CK(peq(v(a - c), psub(A, V<M>{ c }))); CK(peq(v(c - a), psub(V<M>{ c }, A)));
    { F t = a; CK(peq(v(t++), A)); CK(peq(v(t), padd(A, V<M>{ 1 }))); --t; CK(peq(v(t--), A)); CK(peq(v(++t), A)); t *= b; CK(peq(v(t), P)); t = a; t += t; CK(peq(v(t), pscale(A, M(2)))); t = a; t *= t; CK(peq(v(t), pmul(A, A))); t = a; t -= b; CK(peq(v(t), psub(A, B))); }
    { V<M> s(sh); s.insert(s.end(), A.begin(), A.end()); CK(v(a << sh) == s); V<M> r(A.begin() + std::min(sh, n), A.end()); CK(v(a >> sh) == r); F t = a; CK(v(t.cut(sh)) == pfit(A, std::min(n, sh))); CK(v(a.cut_copy(sh)) == pfit(A, sh)); int l = g.in(0, sh); V<M> w; for (int i = l; i < sh; ++i) w.push_back(i < n ? A[i] : M(0)); CK(v(a.cut_copy(l, sh)) == w); t = a; t.cut_trailing_zeros(); CK(v(t) == ptrim(A)); const F& ca = a; CK(ca.safe_get(sh) == (sh < n ? A[sh] : M(0))); t = a; t.safe_get(sh) += c; w = pfit(A, std::max(n, sh + 1)); w[sh] += c; CK(v(t) == w); t = a; t.ensure(sh); CK(v(t) == pfit(A, std::max(n, sh))); }
    EQ(a == b, peq(A, B)); EQ(a != b, !peq(A, B)); CK(a == F(pfit(A, n + 2)) && !(a != F(pfit(A, n + 2)))); CKM(peq(v(a.diff()), pdiff(A)), "diff"); { auto I = v(a.intg()); CK((int)I.size() == n + 1 && I[0] == M(0) && peq(pdiff(I), A)); F t = a; t.diff_inplace(); CK(peq(v(t), pdiff(A))); t = a; t.intg_inplace(); CK(v(t) == I); } CK(a.eval(c) == peval(A, c));
    { auto sp = a.sparse_fps_format(15); int nz = 0; for (auto& x : A) nz += x.val() != 0; EQ(sp.has_value(), nz <= 15); if (sp) { V<M> w(n); for (auto [i, x] : *sp) w[i] = x; CK(w == A); EQ((int)sp->size(), nz); } }
    g.nontrivial(n >= 60 && m >= 60);
}
PBT(ring_operations, 2000, "both operands have at least 60 coefficients") { EACH(ring); }
template <class F> static void divi(Gen& g) { using M = typename F::value_type; int n = plen(g, 0, 300), m = g.chance(1, 2) ? g.in(1, 8) : plen(g, 1, 300); V<M> A = gpoly<M>(g, n), B = gpoly<M>(g, m); if (g.chance(1, 6)) { auto C = gpoly<M>(g, g.in(0, 60)); A = pmul(B, C); n = A.size(); } auto T = ptrim(B); if (T.empty()) return; F a(A), b(B); g.note("n ", n, " m ", m); auto [q, r] = a.div_mod(b); CKM(peq(padd(pmul(v(q), B), v(r)), A), "division identity"); CKM(ptrim(v(r)).size() < T.size(), "remainder degree"); CKM(a / b == q, "/"); CKM(a % b == r, "%"); F t = a; t /= b; CK(t == q); t = a; t %= b; CK(t == r); g.nontrivial(n >= 60 && m >= 2 && n > m); }
PBT(division, 3000, "dividend of at least 60 coefficients and a shorter non-constant divisor") { EACH(divi); }
template <class F> static void series(Gen& g) {
    using M = typename F::value_type; int n = plen(g, 1, 280), k = g.chance(1, 3) ? n : plen(g, 1, 280), kk = k == n && g.coin() ? -1 : k; V<M> A = gpoly<M>(g, n); bool sparse = std::count_if(A.begin(), A.end(), [](M x) { return x.val() != 0; }) <= 15; g.note("n ", n, " k ", k, " default ", kk < 0, " sparse ", sparse); auto len = [&](const V<M>& x, const char* w) { CKM((int)x.size() == k, std::string("length of ") + w); };
    if (A[0] == M(0) && g.coin()) A[0] = (i64)g.raw(M::mod() - 1) + 1; F a(A);
    if (A[0].val()) { auto r = v(a.inv(kk)); len(r, "inv"); CKM(r == pinv(A, k), "inv"); F t = a; t.inv_inplace(kk); CK(v(t) == r); if (kk < 0) CK(v(inv(a)) == r); }
    { V<M> Z = A; Z[0] = 0; F z(Z); auto e = v(z.exp(kk)); len(e, "exp"); CKM(e[0] == M(1) && pmodeq(pdiff(e), pmul(pdiff(Z), e, std::max(k - 1, 0)), k - 1), "exp"); F t = z; t.exp_inplace(kk); CK(v(t) == e); if (kk < 0) CK(v(exp(z)) == e); }
    { V<M> Z = A; Z[0] = 1; F z(Z); auto l = v(z.log(kk)); len(l, "log"); CKM(l[0] == M(0) && pmodeq(pmul(Z, pdiff(l), std::max(k - 1, 0)), pdiff(Z), k - 1), "log"); F t = z; t.log_inplace(kk); CK(v(t) == l); if (kk < 0) CK(v(log(z)) == l); }
    g.label(sparse ? "sparse" : k >= 60 ? "newton" : "naive"); g.nontrivial(k >= 60 && !sparse);
}
PBT(inv_exp_log, 2500, "at least 60 requested coefficients of a dense series") { EACH(series); }
template <class F> static void powsq(Gen& g) {
    using M = typename F::value_type; int n = plen(g, 1, 160), k = g.chance(1, 3) ? n : plen(g, 1, 160), kk = k == n && g.coin() ? -1 : k; V<M> A = gpoly<M>(g, n); int z = g.coin() ? 0 : g.in(0, std::min(n, 6)); if (g.chance(1, 20)) z = g.in(0, n); for (int i = 0; i < z; ++i) A[i] = 0; F a(A); i64 e = g.chance(1, 4) ? (i64)g.raw(1000000000000000000ULL) : g.chance(1, 10) ? (i64)M::mod() * g.in(1, 3) : g.in(0, 20); g.note("n ", n, " k ", k, " default ", kk < 0, " z ", z, " e ", e);
    auto r = v(a.pow(e, kk)); CKM((int)r.size() == k, "length of pow"); CKM(r == ppow(A, e, k), "pow"); { F t = a; t.pow_inplace(e, kk); CK(v(t) == r); if (kk < 0) CK(v(pow(a, e)) == r); }
    V<M> Q = g.coin() ? pmul(A, A, g.coin() ? n : 2 * n - 1) : A; int nq = Q.size(); int kq = g.chance(1, 3) ? -1 : plen(g, 1, 200), K = kq < 0 ? nq : kq; F q(Q); auto s = q.safe_sqrt(kq); int lz = 0; while (lz < nq && Q[lz] == M(0)) ++lz; if (s) { auto S = v(*s); CKM((int)S.size() == K, "length of sqrt"); CKM(pmodeq(pmul(S, S), Q, K), "sqrt squared"); CK(v(q.sqrt(kq)) == S); F t = q; t.sqrt_inplace(kq); CK(v(t) == S); } else { CKM(lz < nq, "sqrt of zero refused"); CKM(lz % 2 == 1 || Q[lz].pow((M::mod() - 1) / 2) != M(1), "sqrt refused"); } g.nontrivial(k >= 60 && (z > 0 || e > 20));
}
PBT(pow_sqrt, 1800, "at least 60 requested coefficients with leading zeros or a large exponent") { EACH(powsq); }
template <class F> static void sqrt_zeros(Gen& g) { using M = typename F::value_type; int n = g.in(60, 90), tz = 2 * g.in(0, n + 4) + g.chance(1, 8); auto A = gpoly<M>(g, g.in(20, 60)); if (A[0] == M(0)) A[0] = 4; V<M> Q(tz); Q.insert(Q.end(), A.begin(), A.end()); if (g.coin()) { Q.assign(tz, M(0)); auto S = pmul(A, A); Q.insert(Q.end(), S.begin(), S.end()); } g.note("n ", n, " zeros ", tz); F q(Q); auto s = q.safe_sqrt(n); if (s) { auto S = v(*s); CKM((int)S.size() == n, "length"); CKM(pmodeq(pmul(S, S), Q, n), "sqrt squared"); } else CKM(tz % 2 == 1 || Q[tz].pow((M::mod() - 1) / 2) != M(1), "sqrt refused"); g.nontrivial(tz >= 2); }
PBT(sqrt_with_many_leading_zeros, 400, "at least 2 leading zeros") { EACH(sqrt_zeros); }
template <class F> static void prods(Gen& g) {
    using M = typename F::value_type; int t = g.in(0, 7); std::vector<F> fs; V<M> P{ 1 }; for (int i = 0; i < t; ++i) { auto A = gpoly<M>(g, g.in(0, g.chance(1, 6) ? 80 : 6)); fs.push_back(F(A)); P = pmul(P, A); } CKM(peq(v(F::prod(fs)), P), "product of a list");
    using R = RationalFPS<F>; auto rat = [&](V<M>& nu, V<M>& de) { nu = gpoly<M>(g, g.in(0, 6)); de = gpoly<M>(g, g.in(1, 5)); de[0] = (i64)g.raw(M::mod() - 1) + 1; return R(F(nu), F(de)); }; int n = g.chance(1, 8) ? g.in(60, 90) : g.in(1, 20); auto val = [&](const R& r) { auto x = v(r.to_fps(n)); CKM((int)x.size() <= n, "to_fps length"); return pfit(x, n); }; auto ser = [&](const V<M>& nu, const V<M>& de) { return pmul(nu, pinv(de, n), n); };
    V<M> na, da, nb, db; R a = rat(na, da), b = rat(nb, db); auto sa = ser(na, da), sb = ser(nb, db); M c = (i64)g.raw(M::mod() - 1) + 1; CK(val(a) == sa); CKM(val(a + b) == padd(sa, sb), "a+b"); CKM(val(a - b) == psub(sa, sb), "a-b"); CKM(val(a * b) == pmul(sa, sb, n), "ab"); CK(val(-a) == pscale(sa, M(-1))); CK(val(+a) == sa); CK(val(a * c) == pscale(sa, c)); CK(val(c * a) == pscale(sa, c)); CK(val(a / c) == pscale(sa, c.inv())); CK(val(R(c)) == pfit(V<M>{ c }, n)); { R x = a; x += b; CK(val(x) == padd(sa, sb)); x -= b; CK(val(x) == sa); x *= b; CK(val(x) == pmul(sa, sb, n)); x = a; x *= c; CK(val(x) == pscale(sa, c)); x /= c; CK(val(x) == sa); R y(std::pair<F, F>{ F(na), F(da) }); CK(val(y) == sa); y.cut(n); CK(val(y) == sa); auto q = v(y.normalize()); (void)q; }
    { R x = a; auto q = v(x.normalize()); CKM(ptrim(v(x.num)).size() < ptrim(da).size(), "proper fraction"); CKM(pfit(padd(pfit(q, n), val(x)), n) == sa, "q + r/den"); }
    if (na.size() && na[0].val()) { CK(val(a.inv()) == ser(da, na)); R x = a; x.inv_inplace(); CK(val(x) == ser(da, na)); CK(val(c / a) == pscale(ser(da, na), c)); } { V<M> z(g.in(0, 3)), zn = z, zd = z; zn.insert(zn.end(), na.begin(), na.end()); zd.insert(zd.end(), da.begin(), da.end()); CKM(val(R(F(zn), F(zd))) == sa, "common factor x^k"); }
    std::vector<R> rs; V<M> S(n), Q = pfit(V<M>{ 1 }, n); int u = g.in(0, 5); for (int i = 0; i < u; ++i) { V<M> x, y; rs.push_back(rat(x, y)); auto s = ser(x, y); S = padd(S, s); Q = pmul(Q, s, n); } CKM(val(R::sum(rs)) == S, "sum of a list"); CKM(val(R::prod(rs)) == Q, "product of a list of fractions"); g.nontrivial(t >= 3 && u >= 2);
}
PBT(products_and_fractions, 1500, "at least 3 polynomials and 2 fractions") { EACH(prods); }
// online series: the i-th output is produced as soon as the i-th input arrives
template <class M> static void relaxed(Gen& g) {
    int n = g.chance(1, 3) ? g.in(1, 12) : g.in(60, 280); V<M> A = gpoly<M>(g, n); M a0 = (i64)g.raw(M::mod() - 1) + 1; i64 k = g.chance(1, 3) ? (i64)g.raw(1000000000000000000ULL) : g.in(0, 9); bool dep = g.coin(); int z = g.in(0, 3); V<M> fi, fe, fl, fp, fs; V<M> gi, ge, gl, gp, gs; RelaxedInv<M> ri; RelaxedExp<M> re; RelaxedLog<M> rl; RelaxedPow<M> rp(k); RelaxedSqrt<M> rs; g.note("n ", n, " k ", k, " z ", z, " dep ", dep);
    for (int i = 0; i < n; ++i) { M d = dep && i ? gi[i - 1] : M(0); auto x = [&](M first) { return i == 0 ? first : A[i] + d; }; fi.push_back(x(a0)); fe.push_back(x(0)); fl.push_back(x(1)); fp.push_back(i < z ? M(0) : A[i]); fs.push_back(x(a0 * a0)); gi.push_back(ri.append(fi[i])); ge.push_back(re.append(fe[i])); gl.push_back(rl.append(fl[i])); gp.push_back(rp.append(fp[i])); auto s = rs.append(fs[i]); CKM(s.has_value(), "square root refused"); gs.push_back(*s); CK(ri[i] == gi[i] && re[i] == ge[i] && rl[i] == gl[i] && rp[i] == gp[i] && rs[i] == gs[i]); }
    CKM(gi == pinv(fi, n), "relaxed inv"); CKM(ge[0] == M(1) && pmodeq(pdiff(ge), pmul(pdiff(fe), ge), n - 1), "relaxed exp"); CKM(gl[0] == M(0) && pmodeq(pmul(fl, pdiff(gl)), pdiff(fl), n - 1), "relaxed log"); CKM(gp == ppow(fp, k, n), "relaxed pow"); CKM(pmodeq(pmul(gs, gs), fs, n), "relaxed sqrt"); { RelaxedSqrt<M> r2; M u = (i64)g.raw(M::mod() - 1) + 1; EQ(r2.append(u).has_value(), u.pow((M::mod() - 1) / 2) == M(1)); } g.nontrivial(n > 128);
}
PBT(relaxed_series, 250, "more than 128 appended coefficients") { if (g.coin()) relaxed<MP>(g); else relaxed<MQ>(g); }
