#include "num.hpp"
#include <atcoder/modint>
#include "library/number/barrett_reduction.hpp"
#include "library/number/modint.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/montogomery.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
using namespace hv;
PBT(barrett, 40000, "x at least 2^32 and M not a power of two") { uint32_t m = g.edgy(1, INT_MAX); u64 x = g.u64any(); if (g.chance(1, 3)) x = (x / m) * m + (g.coin() ? 0 : m - 1); g.note(x, " mod ", m); suisen::barrett b(m); EQ(b.umod(), m); EQ((uint32_t)b.mod(), m); EQ(b.quo(x), x / m); EQ(b.rem(x), uint32_t(x % m)); auto [q, r] = b.quorem(x); EQ(q, x / m); EQ(r, uint32_t(x % m)); if (m > 1) { EQ((b.quo<false>(x)), x / m); EQ((b.rem<false>(x)), uint32_t(x % m)); } uint32_t a = g.u64any(), c = g.u64any(); EQ(b.mul(a, c), uint32_t(u64(a) * c % m)); EQ(suisen::barrett().rem(x), 0u); EQ(suisen::barrett().quo(x), x); g.nontrivial(x >> 32 && (m & (m - 1))); }
// One algebra check shared by all modint-like types: every operation compared with exact 128-bit arithmetic
template <class M, class Mk> static void arith(Gen& g, i64 m, Mk mk) {
    auto nm = [&](i128 v) { v %= m; if (v < 0) v += m; return (u64)v; }; auto gv = [&] { return g.chance(1, 4) ? (i64)g.u64any() : g.chance(1, 3) ? i64(m - 1 - (i64)g.raw(3)) : (i64)g.raw(m); };
    i64 x = gv(), y = gv(); g.note("mod ", m, ": ", x, " ", y); M a = mk(x), b = mk(y); u64 p = nm(x), q = nm(y); EQ((u64)M().val(), 0ULL); EQ((u64)a.val(), p); EQ((u64)b.val(), q); EQ((u64)(a + b).val(), nm((i128)p + q)); EQ((u64)(a - b).val(), nm((i128)p - q)); EQ((u64)(a * b).val(), u64((u128)p * q % m)); EQ(a == b, p == q); EQ(a != b, p != q); { M c = a; c += b; c -= a; CK(c == b); c *= a; CK(c == a * b); c = a; c += c; CK(c == a + a); c = a; c -= c; EQ((u64)c.val(), 0ULL); c = a; c *= c; CK(c == a * a); } { M c = a; EQ((u64)(c++).val(), p); EQ((u64)c.val(), nm((i128)p + 1)); EQ((u64)(++c).val(), nm((i128)p + 2)); EQ((u64)(c--).val(), nm((i128)p + 2)); EQ((u64)(--c).val(), p); CK(c == a); } i64 e = g.coin() ? g.in(0, 20) : (i64)(g.u64any() >> 1); EQ((u64)a.pow(e).val(), pw(p, e, m)); if (std::gcd<u64>(p, m) == 1 && (p || m == 1)) { M i = a.inv(); CK((u64)i.val() < (u64)m); EQ(u64((u128)(u64)i.val() * p % m), 1ULL % m); CK(b / a * a == b); M c = b; c /= a; CK(c == b * i); EQ((u64)a.xpow(-e).val(), pw((u64)i.val(), e, m)); EQ((u64)a.xpow(e).val(), pw(p, e, m)); CK(suisen::inv(a) == i); } g.nontrivial(p > 1 && q > 1 && p != q && m > 100);
}
template <class M> static void msq(Gen& g, i64 p) { u64 a = g.coin() ? g.raw(p) : 0; if (!a) { u64 x = g.raw(p); a = u128(x) * x % p; } bool ex = p == 2 || a == 0 || pw(a, (p - 1) / 2, p) == 1; M x = M((i64)a); auto s = suisen::mod_sqrt(x); EQ(s.has_value(), ex); if (s) { EQ(u64((u128)s->val() * s->val() % p), a); CK(suisen::sqrt(x) * suisen::sqrt(x) == x); } CK(suisen::log(M(1)) == 0); CK(suisen::exp(M(0)) == 1); CK(suisen::pow(x, 3) == x * x * x); std::stringstream io; io << x; EQ(io.str(), std::to_string(x.val())); M y; io >> y; CK(y == x); }
template <int m> static void stat(Gen& g) { using M = suisen::static_modint<m>; EQ((int)M::mod(), m); EQ((int)M::umod(), m); arith<M>(g, m, [](i64 v) { return M(v); }); M a((i64)g.u64any()); CK(+a == a); CK(-a + a == 0); u64 u = g.u64any(); EQ((u64)M(u).val(), u % m); EQ((u64)M((int)u).val(), u64((((i64)(int)u) % m + m) % m)); EQ((u64)M((unsigned)u).val(), u64((unsigned)u % m)); int r = g.raw(m); EQ((int)M::raw(r).val(), r); if (m > 1 && isp(m)) msq<M>(g, m); static_assert(suisen::is_modint_v<M> && suisen::is_static_modint_v<M> && !suisen::is_dynamic_modint_v<M>); }
PBT(static_modint, 30000, "two distinct residues above 1, modulus above 100") { switch (g.raw(11)) { case 0: stat<1>(g); break; case 1: stat<2>(g); break; case 2: stat<3>(g); break; case 3: stat<12>(g); break; case 4: stat<101>(g); break; case 5: stat<1000000>(g); break; case 6: stat<1000000007>(g); break; case 7: stat<2147483647>(g); break; case 8: stat<2147483646>(g); break; case 9: stat<1073741824>(g); break; default: stat<998244353>(g); } }
PBT(dynamic_modint, 30000, "two distinct residues above 1, modulus above 100") { using M = suisen::dynamic_modint<5>; using O = suisen::modint; int m = g.coin() ? (int)g.edgy(1, INT_MAX) : g.coin() ? (int)gen_prime(g, INT_MAX) : g.in(1, 200); int m2 = g.edgy(1, INT_MAX); O::set_mod(m2); M::set_mod(m); EQ(M::mod(), m); EQ((int)M::umod(), m); EQ(O::mod(), m2); arith<M>(g, m, [](i64 v) { return M(v); }); u64 u = g.u64any(), h = g.u64any(); EQ((u64)M(u).val(), u % m); EQ((u64)M((int)u).val(), u64((((i64)(int)u) % m + m) % m)); EQ((u64)M((unsigned)u).val(), u64((unsigned)u % m)); u128 w = (u128)h << 64 | u; EQ((u64)M((__uint128_t)w).val(), u64(w % m)); i128 s = (i128)w; i128 t = s % m; if (t < 0) t += m; EQ((u64)M((__int128_t)s).val(), u64(t)); int r = g.raw(m); EQ((int)M::raw(r).val(), r); if (isp(m)) msq<M>(g, m); static_assert(suisen::is_modint_v<M> && !suisen::is_static_modint_v<M> && suisen::is_dynamic_modint_v<M>); }
PBT(modint_2p61m1, 40000, "both operands above 2^31") { using M = suisen::modint2p61m1; const u64 p = (1ULL << 61) - 1; EQ((u64)M::mod(), p); auto gv = [&] { return g.chance(1, 3) ? p - 1 - g.raw(3) : g.u64any(); }; u64 x = gv(), y = gv(); g.note(x, " ", y); M a(x), b(y); u64 u = x % p, v = y % p; EQ((u64)a.val(), u); EQ((u64)M::fast_mod(x), x % p); EQ((u64)(a + b).val(), u64(((u128)u + v) % p)); EQ((u64)(a - b).val(), u64(((u128)u + p - v) % p)); EQ((u64)(a * b).val(), u64((u128)u * v % p)); EQ(a == b, u == v); { M c = a; c *= c; EQ((u64)c.val(), u64((u128)u * u % p)); c = a; c += c; CK(c == a + a); c = a; c -= c; CK(c == M()); } i64 e = g.u64any() >> 1; EQ((u64)a.pow(e).val(), pw(u, e, p)); if (u) EQ((u64)(a.inv() * a).val(), 1ULL); g.nontrivial(u >> 31 && v >> 31); }
template <class MG, class Int, class D> static void mont(Gen& g, u64 lim) { Int n = g.u64any() % lim | 1; if (g.chance(1, 3)) n = (lim - g.raw(200)) | 1; if (n == 0) n = 1; MG mg(n); auto gv = [&]() -> Int { return g.chance(1, 3) ? n - 1 - g.raw(std::min<u64>(n, 3)) : g.u64any() % n; }; Int a = gv(), b = gv(); g.note("N ", n, ": ", a, " ", b); Int A = mg.make(a), B = mg.make(b); EQ((u64)mg.reduce(A), (u64)a); EQ((u64)mg.reduce(B), (u64)b); CK(A < n && B < n); EQ((u64)mg.reduce(mg.mul(A, B)), u64((u128)a * b % n)); EQ((u64)mg.reduce(mg.add(A, B)), u64(((u128)a + b) % n)); EQ((u64)mg.reduce(mg.sub(A, B)), u64(((u128)a + n - b) % n)); i64 e = g.u64any() >> 1; EQ((u64)mg.reduce(mg.pow(A, e)), pw(a, e, n)); Int t = g.u64any(); EQ((u64)mg.reduce(mg.make(t)), (u64)(t % n)); g.nontrivial(n > 1000 && a > 1 && b > 1); }
PBT(montgomery, 40000, "modulus above 1000, operands above 1") { if (g.coin()) mont<suisen::Montgomery32, uint32_t, u64>(g, g.coin() ? UINT_MAX : 1u << 30); else mont<suisen::Montgomery64, uint64_t, u128>(g, g.coin() ? ~0ULL : 1ULL << 62); }
using D9 = atcoder::dynamic_modint<91>;
PBT(modint_extension, 12000, "non-zero square modulo a prime above 100") { i64 p; auto run = [&](auto one) { using M = decltype(one); p = M::mod(); u64 a = g.coin() ? g.raw(p) : 0; if (!a) { u64 x = g.raw(p); a = u128(x) * x % p; } g.note(a, " mod ", p); bool ex = p == 2 || a == 0 || pw(a, (p - 1) / 2, p) == 1; M x = M::raw((int)a); auto s = safe_sqrt(x); EQ(s.has_value(), ex); if (s) { EQ(u64((u128)s->val() * s->val() % p), a); CK(::sqrt(x) * ::sqrt(x) == x); } CK(::log(M(1)) == 0); CK(::exp(M(0)) == 1); CK(::pow(x, 5) == x.pow(5)); if (a) CK(::inv(x) * x == 1); g.nontrivial(ex && a && p > 100); }; switch (g.raw(6)) { case 0: run(atcoder::modint998244353(1)); break; case 1: run(atcoder::modint1000000007(1)); break; case 2: run(atcoder::static_modint<2>(1)); break; case 3: run(atcoder::static_modint<17>(1)); break; default: D9::set_mod(gen_prime(g, g.pick<u64>({ 100, INT_MAX }))); run(D9(1)); } }
template <class M> static void tabs(Gen& g, int lim) { const i64 p = M::mod(); suisen::inv_mods<M> iv = g.coin() ? suisen::inv_mods<M>(g.size(0, lim)) : suisen::inv_mods<M>(); for (int q = 8; q--;) { int i = g.size(1, lim); if (i % p == 0) continue; EQ(u64((u128)iv[i].val() * u64(i % p) % p), 1ULL % p); } int n = g.size(0, 30); std::vector<M> v(n); for (auto& e : v) e = M(1 + (i64)g.raw(p - 1)); auto w = suisen::get_invs(v); EQ((int)w.size(), n); for (int i = 0; i < n; ++i) CK(w[i] * v[i] == 1); suisen::static_pow_mods<3, M> s3; suisen::static_pow_mods<-2, M> s2(g.size(0, 20)); M b = M((i64)g.u64any()); suisen::pow_mods<M> pm(b, g.size(0, 20)); for (int q = 8; q--;) { int e = g.size(0, 300); CK(s3[e] == M(3).pow(e)); CK(s2[e] == M(-2).pow(e)); CK(pm[e] == b.pow(e)); } g.nontrivial(n >= 3); }
PBT(inverse_and_power_tables, 6000, "at least three batched inverses") { switch (g.raw(4)) { case 0: tabs<atcoder::modint1000000007>(g, 400); break; case 1: tabs<atcoder::static_modint<101>>(g, 100); break; case 2: tabs<suisen::static_modint<1000003>>(g, 400); break; default: tabs<atcoder::modint998244353>(g, 400); } }
