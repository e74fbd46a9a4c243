#include "poly.hpp"
#include <optional>
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
template <class M> static void naive(Gen& g) {
    using F = FPSNaive<M>; int n = g.len(0, 14), m = g.len(0, 14); V<M> A = gpoly<M>(g, n), B = gpoly<M>(g, m); F a(A), b(B); M c = (i64)g.raw(M::mod()); int sh = g.in(0, 18); auto v = [](const F& f) { return V<M>(f); };
    EQ(a.size(), n); EQ(a.deg(), n - 1); CK(peq(v(a + b), padd(A, B))); CK(peq(v(a - b), psub(A, B))); CK(peq(v(a * b), pmul(A, B))); CK(peq(v(-a), psub(V<M>{}, A))); CK(peq(v(+a), A)); CK(peq(v(a * c), pscale(A, c))); CK(peq(v(c * a), pscale(A, c))); CK(peq(v(a + c), padd(A, V<M>{ c }))); CK(peq(v(a - c), psub(A, V<M>{ c }))); { F t = a; ++t; CK(peq(v(t), padd(A, V<M>{ 1 }))); --t; --t; CK(peq(v(t), psub(A, V<M>{ 1 }))); }
    { V<M> s(sh); s.insert(s.end(), A.begin(), A.end()); CK(v(a << sh) == s); V<M> r(A.begin() + std::min(sh, n), A.end()); CK(v(a >> sh) == r); CK(v(a.cut(sh)) == pfit(A, std::min(n, sh))); F t = a; EQ(t.normalize(), (int)ptrim(A).size() - 1); CK(v(t) == ptrim(A)); const F& ca = a; CK(ca[sh] == (sh < n ? A[sh] : M(0))); t = a; t[sh] += c; auto w = pfit(A, std::max(n, sh + 1)); w[sh] += c; CK(v(t) == w); }
    EQ(a == b, peq(A, B)); EQ(a != b, !peq(A, B)); CK(a == F(pfit(A, n + 3))); CK(peq(v(a.diff()), pdiff(A))); { auto I = v(a.intg()); CK(peq(pdiff(I), A)); CK(I.empty() || I[0] == M(0)); } CK(a.eval(c) == peval(A, c));
    { auto T = ptrim(B); if (T.size()) { auto [q, r] = a.div_mod(b); CKM(peq(padd(pmul(v(q), B), v(r)), A), "division identity"); CKM(ptrim(v(r)).size() < T.size(), "remainder degree"); CK(a / b == q && a % b == r); F t = a; t /= b; CK(t == q); t = a; t %= b; CK(t == r); } }
    { int k = g.in(-1, 20); int z = k < 0 ? n : k; auto p = v(a.mul(b, k)); CKM(pmodeq(p, pmul(A, B), z) && (int)p.size() <= std::max(z, 0), "mul truncated"); }
    int k = g.in(1, 20), kk = g.chance(1, 4) && n ? -1 : k; if (kk < 0) k = n; auto size_ok = [&](const V<M>& x) { CKM((int)x.size() == k, "result length"); }; g.note("A ", A.size(), " k ", k);
    if (n && A[0].val()) { auto r = v(a.inv(kk)); size_ok(r); CKM(r == pinv(A, k), "inv"); }
    if (n) { V<M> Z = A; Z[0] = 0; auto e = v(F(Z).exp(kk)); size_ok(e); CKM(e[0] == M(1) && pmodeq(pdiff(e), pmul(pdiff(Z), e), k - 1), "exp"); Z[0] = 1; auto l = v(F(Z).log(kk)); size_ok(l); CKM(l[0] == M(0) && pmodeq(pmul(Z, pdiff(l)), pdiff(Z), k - 1), "log"); }
    if (n || kk > 0) { i64 e = g.chance(1, 3) ? (i64)g.raw(1000000000000000000ULL) : g.in(0, 12); if (g.chance(1, 6)) e = M::mod(); auto r = v(a.pow(e, kk)); size_ok(r); CKM(r == ppow(A, e, k), "pow"); }
    { V<M> Q = g.coin() ? pmul(A, A) : A; int kq = g.chance(1, 4) && Q.size() ? -1 : g.in(1, 20); int z = kq < 0 ? Q.size() : kq; auto r = F(Q).safe_sqrt(kq); int lz = 0; while (lz < (int)Q.size() && Q[lz] == M(0)) ++lz; if (r) { auto R = v(*r); CKM((int)R.size() == z, "sqrt length"); CKM(pmodeq(pmul(R, R), Q, z), "sqrt squared"); auto s = v(F(Q).sqrt(kq)); CK(s == R); } else { CKM(lz < (int)Q.size(), "sqrt of zero"); CKM(lz % 2 == 1 || Q[lz].pow((M::mod() - 1) / 2) != M(1), "sqrt exists"); } }
    if (n) { CK(inv(F{ 1, 2 }) == (F{ 1, -2 })); CK(sqrt(F{ 4, 4 }) * sqrt(F{ 4, 4 }) != F{}); CK((exp(F{ 0, 1 }) == F{ 1, 1 })); CK((log(F{ 1, 1 }) == F{ 0, 1 })); CK((pow(F{ 1, 1 }, 3) == F{ 1, 3 })); }
    g.nontrivial(n >= 4 && m >= 3);
}
PBT(fps_naive, 6000, "both operands have several coefficients", 8, 12) { if (g.coin()) naive<MP>(g); else naive<MB>(g); }
template <class M, int N> static void arr(Gen& g) {
    using F = ArrayFPSNaive<M, N>; auto mk = [&](const V<M>& x) { F f; std::copy(x.begin(), x.end(), f.begin()); return f; }; auto v = [](const F& f) { return V<M>(f.begin(), f.end()); }; V<M> A = gpoly<M>(g, N), B = gpoly<M>(g, N); if (g.chance(1, 3)) { int z = g.in(0, N); for (int i = 0; i < z; ++i) A[i] = 0; } F a = mk(A), b = mk(B); M c = (i64)g.raw(M::mod()); int sh = g.in(0, N + 3);
    CK(v(F{}) == V<M>(N)); CK((v(F{ 3 }) == pfit(V<M>{ 3 }, N))); CK(v(a + b) == padd(A, B)); CK(v(a - b) == psub(A, B)); CK(v(a * b) == pmul(A, B, N)); CK(v(a.mul(b)) == pmul(A, B, N)); CK(v(-a) == psub(V<M>{}, A)); CK(v(+a) == A); CK(v(a * c) == pscale(A, c)); CK(v(c * a) == pscale(A, c)); CK(v(a + c) == padd(A, V<M>{ c })); CK(v(a - c) == psub(A, V<M>{ c })); { F t = a; ++t; CK(v(t) == padd(A, V<M>{ 1 })); --t; CK(v(t) == A); t *= b; CK(v(t) == pmul(A, B, N)); }
    { V<M> s(sh); s.insert(s.end(), A.begin(), A.end()); CKM(v(a << sh) == pfit(s, N), "<<"); V<M> r(A.begin() + std::min(sh, N), A.end()); CKM(v(a >> sh) == pfit(r, N), ">>"); } CK(v(a.diff()) == pfit(pdiff(A), N)); { auto I = v(a.intg()); CK(I[0] == M(0) && pmodeq(pdiff(I), A, N - 1)); } CK(a.eval(c) == peval(A, c));
    { auto T = ptrim(B); if (T.size()) { auto q = v(a / b), r = v(a % b); CKM(peq(padd(pmul(q, B), r), A), "division identity"); CKM(ptrim(r).size() < T.size(), "remainder degree"); F t = a; t /= b; CK(v(t) == q); t = a; t %= b; CK(v(t) == r); } }
    if (A[0].val()) CKM(v(a.inv()) == pinv(A, N), "inv"); { V<M> Z = A; Z[0] = 0; auto e = v(mk(Z).exp()); CKM(e[0] == M(1) && pmodeq(pdiff(e), pmul(pdiff(Z), e), N - 1), "exp"); Z[0] = 1; auto l = v(mk(Z).log()); CKM(l[0] == M(0) && pmodeq(pmul(Z, pdiff(l)), pdiff(Z), N - 1), "log"); }
    { i64 e = g.chance(1, 3) ? (i64)g.raw(1000000000000000000ULL) : g.in(0, 12); CKM(v(a.pow(e)) == ppow(A, e, N), "pow"); }
    { V<M> Q = pmul(A, A, N); auto R = v(mk(Q).sqrt()); CKM(pmodeq(pmul(R, R), Q, N), "sqrt"); } g.nontrivial(N >= 4);
}
PBT(array_fps_naive, 6000, "at least 4 coefficients") { switch (g.raw(4)) { case 0: arr<MP, 1>(g); break; case 1: arr<MP, 5>(g); break; case 2: arr<MB, 8>(g); break; default: arr<MP, 17>(g); } }
