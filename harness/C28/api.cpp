#include "poly.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/fps_naive.hpp"
using namespace hv; using namespace suisen; using M = atcoder::modint998244353;
PBT(array_fps_free_functions, 4000, "every case") { using F = ArrayFPSNaive<M, 7>; V<M> A = gpoly<M>(g, 7), B = gpoly<M>(g, 7); A[0] = 1; F a, z; std::copy(A.begin(), A.end(), a.begin()); V<M> Z = A; Z[0] = 0; std::copy(Z.begin(), Z.end(), z.begin()); auto v = [](const F& f) { return V<M>(f.begin(), f.end()); }; int e = g.in(0, 9); CKM(v(inv(a)) == pinv(A, 7), "inv"); CKM(v(pow(a, e)) == ppow(A, e, 7), "pow"); CKM(v(log(exp(z))) == Z && v(exp(log(a))) == A, "exp and log"); auto s = v(sqrt(a)); CKM(pmul(s, s, 7) == A, "sqrt"); g.nontrivial(); }
PBT(fps_naive_products, 4000, "every case") { using F = FPSNaive<M>; V<M> A = gpoly<M>(g, g.in(1, 9)), B = gpoly<M>(g, g.in(1, 9)); F a(A.begin(), A.end()), b(B.begin(), B.end()); auto v = [](const F& f) { return V<M>(f.begin(), f.end()); }; F t = a; t *= b; CK(peq(v(t), pmul(A, B))); t = a; t *= t; CK(peq(v(t), pmul(A, A))); V<M> Z = A; Z[0] = 1; F z(Z.begin(), Z.end()); auto s = v(sqrt(z)); CK(pmodeq(pmul(s, s), Z, Z.size())); CK(peq(v(exp(log(z))), Z)); g.nontrivial(); }
