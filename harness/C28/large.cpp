#include "large.hpp"
#include "poly.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
using namespace hv; using namespace suisen; using M = atcoder::modint998244353; using Sv = std::vector<M>;
static Sv smul(const Sv& a, const Sv& b) { int n = a.size(); Sv c(n); for (int s = 0; s < n; ++s) { M r = 0; for (int t = s;; t = (t - 1) & s) { r += a[t] * b[s ^ t]; if (!t) break; } c[s] = r; } return c; }
static Sv sexp(const Sv& f) { int n = f.size(); Sv e(n); e[0] = 1; for (int s = 1; s < n; ++s) { int low = s & -s, r = s ^ low; M x = 0; for (int t = r;; t = (t - 1) & r) { x += f[low | t] * e[r ^ t]; if (!t) break; } e[s] = x; } return e; }
template <class SPS> static void big(Gen& g, int k) {
    int n = 1 << k; Bulk b(g); g.nontrivial(); g.note("k ", k); Sv A(n), B(n); for (auto& x : A) x = (i64)b.raw(P); for (auto& x : B) x = (i64)b.raw(P); SPS a(A), h(B); CKM(Sv(a * h) == smul(A, B), "product"); CKM(Sv((a.zeta() * h.zeta()).mobius()) == smul(A, B), "zeta product"); auto F = A; F[0] = 0; SPS f(F); auto e = f.exp(); CKM(Sv(e) == sexp(F), "exp"); CKM(Sv(e.log()) == F, "log"); F[0] = 25; SPS q(F); auto r = Sv(q.sqrt()); CKM(smul(r, r) == F, "sqrt"); Sv one(n); one[0] = 1; CKM(smul(Sv(q.inv()), F) == one, "inverse"); CKM(Sv(q.pow(3)) == smul(F, smul(F, F)), "power"); i64 x = b.range(1, 1000000000000LL), y = b.range(1, 1000000000000LL); CKM(smul(Sv(q.pow(x)), Sv(q.pow(y))) == Sv(q.pow(x + y)), "powers add");
}
PBT(set_power_series_large, 3, "every case: at least 11 elements") { if (g.coin()) big<SetPowerSeries<M>>(g, g.in(13, 14)); else big<ArraySetPowerSeries<M, 14>>(g, g.in(12, 13)); }
