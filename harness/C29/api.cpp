#include "poly.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
using namespace hv; using namespace suisen; using M = atcoder::modint998244353;
template <class F> static void fn(Gen& g) { int n = plen(g, 1, 140); V<M> A = gpoly<M>(g, n); A[0] = 1; V<M> Z = A; Z[0] = 0; F a(A), z(Z); auto v = [](const F& f) { return V<M>(f.begin(), f.end()); }; int e = g.in(0, 3); g.note(n, e); auto s = v(sqrt(a)); CKM((int)s.size() == n && pmodeq(pmul(s, s), A, n), "sqrt"); CKM(peq(v(exp(log(a))), A) && peq(v(log(exp(z))), Z), "exp and log"); CKM(peq(v(pow(a, e)), ppow(A, e, n)), "pow"); CKM(peq(v(a.pow(0)), V<M>{ 1 }) && (int)v(a.pow(0)).size() == n, "zeroth power"); CKM(peq(v(F(V<M>(n)).pow(0)), V<M>{ 1 }), "zero to the zero"); CKM(pmodeq(pmul(v(inv(a)), A), V<M>{ 1 }, n), "inv"); g.nontrivial(n >= 60); }
PBT(free_functions, 600, "at least 60 coefficients") { FPS<M>::set_multiplication([](const V<M>& a, const V<M>& b) { return atcoder::convolution(a, b); }); if (g.coin()) fn<FPS<M>>(g); else fn<FormalPowerSeries<M>>(g); }
