#include "num.hpp"
#include <atcoder/modint>
#include "library/number/ext_gcd.hpp"
#include "library/number/bezout_equation.hpp"
#include "library/number/garner.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/number/primitive_root.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/fast_discrete_logarithm.hpp"
using namespace hv;
PBT(ext_gcd, 20000, "both arguments non-zero with gcd at least 2") {
    i64 lim = g.pick<i64>({ 10, 1000, 2000000000LL, 4000000000000000000LL }), c = g.chance(1, 2) ? g.range(1, 50) : 1; i64 a = g.edgy(-lim / c, lim / c) * c, b = g.edgy(-lim / c, lim / c) * c; g.note(a, " ", b); auto [x, y, d] = suisen::ext_gcd(a, b); EQ(d, (i64)std::gcd(a, b)); CKM((i128)a * x + (i128)b * y == d, "ax+by != gcd"); EQ(suisen::safe_mod(a, std::max<i64>(1, std::abs(b))), (i64)(((i128)a % std::max<i64>(1, std::abs(b)) + std::max<i64>(1, std::abs(b))) % std::max<i64>(1, std::abs(b)))); i64 m = std::abs(b); if (m) { auto [v, h] = suisen::gcd_inv(a, m); EQ(h, (i64)std::gcd(a, m)); CK(0 <= v && v < m); CKM(((i128)a * v - h) % m == 0, v); if (h == 1) { i64 w = suisen::inv_mod(a, m); CK(0 <= w && w < m); CK(((i128)a * w - 1) % m == 0); } } g.nontrivial(a && b && d >= 2);
}
// solutions of ax+by=z inside a box, against enumeration
PBT(bezout_equation, 20000, "a finite solution set with at least three members") {
    i64 a = g.range(-12, 12), b = g.range(-12, 12), z = g.range(-60, 60); if (g.chance(1, 6)) a = 0; if (g.chance(1, 6)) b = 0; if (g.chance(1, 4)) z = 0; g.note(a, "x+", b, "y=", z); suisen::BezoutEquation e(a, b); auto s = e.solve(z); EQ(s.has_solution(), a == 0 && b == 0 ? z == 0 : z % std::gcd(a, b) == 0); i64 lim[4] = { -40, 40, -40, 40 }; bool on[4] = { 0, 0, 0, 0 }; bool box = g.coin(); std::vector<int> ord = g.perm(4); bool ret = s.has_solution(); for (int k : ord) if (box || g.coin()) { int w = g.raw(2) ? 30 : 6; i64 v = g.range(-w, w); on[k] = true; lim[k] = v; bool r; if (k == 0) r = s.set_min_x(v); else if (k == 1) r = s.set_max_x(v); else if (k == 2) r = s.set_min_y(v); else r = s.set_max_y(v); ret = r; } if (g.chance(1, 5)) { i64 l = g.range(-30, 10), h = g.range(-10, 30); if (g.coin()) { s.set_x_range(l, h); lim[0] = on[0] ? std::max(lim[0], l) : l; lim[1] = on[1] ? std::min(lim[1], h) : h; on[0] = on[1] = 1; } else { s.set_y_range(l, h); lim[2] = on[2] ? std::max(lim[2], l) : l; lim[3] = on[3] ? std::min(lim[3], h) : h; on[2] = on[3] = 1; } }
    g.note("x in [", lim[0], ",", lim[1], "] y in [", lim[2], ",", lim[3], "]"); bool xf = on[0] && on[1], yf = on[2] && on[3]; std::vector<std::pair<i64, i64>> sol; bool fin = (xf && yf) || (a && b && (xf || yf)) || (a && !b && yf) || (b && !a && xf); if (a && b && !fin) { fin = (a > 0) == (b > 0) ? (on[0] && on[2]) || (on[1] && on[3]) : (on[0] && on[3]) || (on[1] && on[2]); } // opposite sign slopes: bounded when both ends are cut
    const i64 R = 1000; i64 xl = on[0] ? lim[0] : -R, xh = on[1] ? lim[1] : R, yl = on[2] ? lim[2] : -R, yh = on[3] ? lim[3] : R; auto inr = [&](i64 x, i64 y) { return xl <= x && x <= xh && yl <= y && y <= yh; };
    if (a || b) { if (b) { for (i64 x = xl; x <= xh; ++x) if ((z - a * x) % b == 0 && inr(x, (z - a * x) / b)) sol.push_back({ x, (z - a * x) / b }); } else if (z % a == 0) for (i64 y = yl; y <= yh; ++y) if (inr(z / a, y)) sol.push_back({ z / a, y }); EQ(s.has_solution(), !sol.empty()); }
    if (fin) { if (a || b) { auto c = s.count(); CKM(c.has_value(), "finite count reported infinite"); EQ(*c, (i64)sol.size()); } else { i64 n = xh >= xl && yh >= yl && z == 0 ? (xh - xl + 1) * (yh - yl + 1) : 0; EQ(*s.count(), n); EQ(s.has_solution(), n > 0); } if (s.has_solution() && (a || b)) { auto q = [&](std::pair<i64, i64> p) { CKM(a * p.first + b * p.second == z && inr(p.first, p.second), p); return p; }; auto mnx = std::min_element(sol.begin(), sol.end())->first, mxx = std::max_element(sol.begin(), sol.end())->first; i64 mny = INT64_MAX, mxy = INT64_MIN; for (auto [x, y] : sol) mny = std::min(mny, y), mxy = std::max(mxy, y); EQ(q(s.xmin_solution()).first, mnx); EQ(q(s.xmax_solution()).first, mxx); EQ(q(s.ymin_solution()).second, mny); EQ(q(s.ymax_solution()).second, mxy); g.nontrivial(sol.size() >= 3); } } else if (s.has_solution()) CKM(!s.count().has_value(), "infinite set counted");
}
PBT(bezout_large, 8000, "both coefficients non-zero and a solution exists") { i64 L = g.pick<i64>({ 1000, 1000000000LL }); i64 a = g.edgy(-L, L), b = g.edgy(-L, L), z = g.edgy(-1000000000000LL, 1000000000000LL); if (g.coin() && (a || b)) z = z / std::gcd(a, b) * std::gcd(a, b); g.note(a, " ", b, " ", z); suisen::BezoutEquation e(a, b); auto s = e.solve(z); bool h = a == 0 && b == 0 ? z == 0 : z % std::gcd(a, b) == 0; EQ(s.has_solution(), h); if (!h || !a || !b) return; i64 l = g.range(-L, L); CK(s.set_min_x(l)); auto [x, y] = s.xmin_solution(); CK((i128)a * x + (i128)b * y == z); CK(x >= l && (i128)x - std::abs(b / std::gcd(a, b)) < l); i64 r = x + g.range(0, 20) * std::abs(b / std::gcd(a, b)); CK(s.set_max_x(r)); auto [x2, y2] = s.xmax_solution(); EQ(x2, r); EQ(*s.count(), (r - x) / std::abs(b / std::gcd(a, b)) + 1); CK((i128)a * x2 + (i128)b * y2 == z); g.nontrivial(); }
PBT(garner, 8000, "at least three congruences whose modulus product exceeds 2^31") { std::vector<std::pair<int, int>> eq; int n = g.in(0, 6); u64 prod = 1; bool big = g.coin(); std::vector<int> ms; for (int i = 0; i < n; ++i) { int m = big ? (int)g.edgy(1, INT_MAX) : g.in(1, 60); for (int o : ms) while (std::gcd(m, o) != 1) m /= std::gcd(m, o); ms.push_back(m); } int md = g.coin() ? (int)g.edgy(1, INT_MAX) : g.pick({ 998244353, 1000000007, 1, 2 }); std::vector<u64> X; /* big integer: x in mixed radix, digits known */ std::vector<u64> dig; for (int m : ms) dig.push_back(g.raw(m)); auto at = [&](u64 mod) { u64 v = 0, p = 1 % mod; for (int i = 0; i < n; ++i) { v = u64((v + (u128)dig[i] % mod * p) % mod); p = u64((u128)p * ms[i] % mod); } return v; }; for (int i = 0; i < n; ++i) { i64 r = at(ms[i]); if (g.chance(1, 4)) r -= ms[i]; eq.push_back({ (int)r, ms[i] }); } g.note(eq, " mod ", md); EQ((u64)suisen::garner(eq, md), at(md)); u128 pr = 1; for (int m : ms) pr = std::min<u128>(pr * m, (u128)1 << 90); g.nontrivial(n >= 3 && pr > (1ULL << 31)); }
PBT(min_of_mod_of_linear, 20000, "n and m at least 5") { if (g.coin()) { int n = g.in(1, 40), m = g.in(1, 60), a = g.in(0, 2 * m), b = g.in(0, 2 * m); g.note(n, " ", m, " ", a, " ", b); int w = INT_MAX; for (int x = 0; x < n; ++x) w = std::min(w, int((1LL * a * x + b) % m)); EQ(suisen::min_of_mod_of_linear(n, m, a, b), w); g.nontrivial(n >= 5 && m >= 5); } else { int n = g.in(1, 3000), m = (int)g.edgy(1, INT_MAX), a = g.chance(1, 5) ? g.edgy(0, INT_MAX) : g.raw(m), b = g.chance(1, 5) ? g.edgy(0, INT_MAX) : g.raw(m); g.note(n, " ", m, " ", a, " ", b); int w = INT_MAX; for (int x = 0; x < n; ++x) w = std::min(w, int((1LL * a * x + b) % m)); EQ(suisen::min_of_mod_of_linear(n, m, a, b), w); g.nontrivial(n >= 5 && m >= 5); } }
PBT(prime_mod_sqrt, 8000, "p > 2^31 with a square root") { u64 lim = g.pick<u64>({ 50, 1000, 1ULL << 31, 1ULL << 40, 4000000000000000000ULL }); u64 p = gen_prime(g, lim); if (g.chance(1, 4)) p = g.pick<u64>({ 998244353, 4611686018326724609ULL, 1945555039024054273ULL, 4179340454199820289ULL, 2013265921, 469762049, 180143985094819841ULL }); if (!isp(p)) p = prime_below(p); i64 a = g.coin() ? (i64)g.edgy(-(i64)p, p - 1) : 0; if (!a && g.coin()) { u64 x = g.raw(p); a = u64(u128(x) * x % p); } g.note(a, " mod ", p); u64 r = ((i128)a % (i128)p + p) % p; bool ex = p == 2 || r == 0 || pw(r, (p - 1) / 2, p) == 1; auto s = suisen::prime_mod_sqrt(a, p); EQ(s.has_value(), ex); if (s) { CK(*s >= 0 && (u64)*s < p); EQ(u64((u128)*s * *s % p), r); } g.nontrivial(p >> 31 && ex && r); }
PBT(composite_mod_sqrt, 12000, "composite modulus, non-zero square") { i64 m = 1; std::vector<std::pair<i64, int>> f; if (g.coin()) { m = g.in(1, 600); f = fac(m); } else { i64 lim = g.pick<i64>({ 1000000000000000LL, 4000000000000000000LL }); std::set<u64> used; for (int k = g.in(1, 4); k--;) { u64 p = g.chance(1, 3) ? 2 : gen_prime(g, g.pick<u64>({ 10, 1000, 100000, 2000000000 })); if (used.count(p)) continue; int e = 0; int want = g.in(1, g.pick<int>({ 12, 60 })); while (e < want && m <= lim / (i64)p) m *= p, ++e; if (e) used.insert(p), f.push_back({ (i64)p, e }); } } g.shuffle(f); i64 a = g.edgy(-m, m - 1 + m); if (g.coin()) { u64 x = g.raw(m); if (g.coin()) for (auto [p, e] : f) if (g.coin()) for (int j = g.in(0, e); j--;) x = u64((u128)x * p % m); a = u64((u128)x * x % m); if (g.coin()) a -= m; } g.note(a, " mod ", f); auto s = suisen::composite_mod_sqrt(a, f); u64 r = (a % m + m) % m; bool ex; if (m <= 600) { ex = false; for (i64 x = 0; x < m; ++x) ex |= u64(x * x % m) == r; } else { ex = true; for (auto [p, e] : f) { i64 q = 1; for (int i = 0; i < e; ++i) q *= p; i64 v = r % q; if (v == 0) continue; int k = 0; while (v % p == 0) v /= p, ++k; if (k % 2) { ex = false; break; } int left = e - k; if (p == 2) { i64 mm = left >= 3 ? 8 : left == 2 ? 4 : 2; if (v % mm != 1 % mm) ex = false; } else if (pw(v % p, (p - 1) / 2, p) != 1) ex = false; } } EQ(s.has_value(), ex); if (s) { u64 t = ((*s % m) + m) % m; EQ(u64((u128)t * t % m), r); } g.nontrivial(ex && r && f.size() + (f.size() ? f[0].second : 0) > 2); }
// a^^b mod m with the tower evaluated by a reference that tracks "value, or at least 64"
static std::pair<u64, bool> tower(u64 a, int b, u64 m) { if (b == 0) return { 1 % m, false }; /* pre-period and cycle of a^k mod m */ std::map<u64, int> at; std::vector<u64> seq; u64 v = 1 % m; while (!at.count(v)) { at[v] = seq.size(); seq.push_back(v); v = v * a % m; } u64 st = at[v], cy = seq.size() - st; /* exact small tower? */ u128 ex = 1; bool big = false; for (int i = 1; i < b && !big; ++i) { u128 w = 1; for (u128 j = 0; j < ex; ++j) { w *= a; if (w > 1000000) { big = true; break; } } ex = w; if (a == 1) break; if (i > 10) break; } if (a == 0) ex = (b - 1) % 2 == 0 ? 1 : 0; if (!big) { u64 k = (u64)ex; return { k < st + cy ? seq[k] : seq[st + (k - st) % cy], false }; } auto [rr, _] = tower(a, b - 1, cy); u64 k = rr; while (k < st) k += cy; return { seq[st + (k - st) % cy], true }; }
PBT(tetration, 12000, "b at least 3 and gcd(a, m) > 1") { int m = g.coin() ? g.in(1, 60) : g.in(1, 5000), a = g.coin() ? g.in(0, 20) : g.in(0, 1000000), b = g.chance(1, 5) ? g.in(0, 1000000000) : g.in(0, 8); g.note(a, "^^", b, " mod ", m); if (g.chance(1, 10)) { a = g.edgy(0, INT_MAX); } u64 w; if (a <= 1) w = (a == 0 ? (b % 2 ? 0 : 1) : 1) % m; else w = tower(a, std::min(b, 60), m).first; EQ((u64)suisen::tetration_mod(a, b, m), w); g.nontrivial(b >= 3 && std::gcd(a, m) > 1 && a > 1); }
PBT(tetration_large, 4000, "m > 10^6") { i64 m = g.edgy(2, INT_MAX); int a = g.edgy(2, INT_MAX), b = g.in(0, 2); g.note(a, "^^", b, " mod ", m); u64 w = b == 0 ? 1 : b == 1 ? a % m : pw(a, a, m); EQ((u64)suisen::tetration_mod(a, b, m), w); g.nontrivial(m > 1000000 && b == 2); }
template <class T> static void ordm(Gen& g, i64 m) { suisen::OrderMod<T> o((T)m); auto r = fac(m); i64 ph = m, la = 1; for (auto [p, c] : r) { ph = ph / p * (p - 1); i64 q = p - 1; for (int i = 1; i < c; ++i) q *= p; if (p == 2 && c >= 3) q /= 2; la = std::lcm(la, q); } EQ((i64)o.mod(), m); EQ((i64)o.totient(), ph); EQ((i64)o.carmichael(), la); EQ(o.is_prime(), r.size() == 1 && r[0].second == 1); std::vector<i64> lf; for (auto [p, c] : fac(la)) lf.push_back(p); auto cf = o.carmichael_prime_factors(); std::vector<i64> cv(cf.begin(), cf.end()); EQ(sorted(cv), lf); auto ord = [&](u64 a) { i64 d = la; for (i64 p : lf) while (d % p == 0 && pw(a, d / p, m) == 1 % (u64)m) d /= p; return d; }; for (int q = 3; q--;) { u64 a = 1 + g.raw(m); for (int k = 0; k < 200 && std::gcd<u64>(a, m) != 1; ++k) a = a % m + 1; if (std::gcd<u64>(a, m) == 1) { EQ((i64)o(a), ord(a)); g.note("a ", a); EQ(o.is_primitive_root(a), ord(a) == ph); if (m > 1) EQ(o.is_primitive_root(typename suisen::OrderMod<T>::U(a % m)), ord(a) == ph); } } for (int q = 2; q--;) { u64 a = g.coin() ? g.raw(m) : fac(m).empty() ? 0 : fac(m)[0].first % m; if (m > 1 && std::gcd<u64>(a, m) != 1) CKM(!o.is_primitive_root(a), "a non-unit is not a primitive root"); } if (la == ph) { i64 pr = o.primitive_root(); CK(pr >= 0 && pr < std::max<i64>(m, 2)); EQ((i64)std::gcd(pr, m), 1LL); EQ(ord(pr), ph); EQ((i64)suisen::primitive_root<T>((T)m) >= 0, true); } }
PBT(order_mod, 3000, "composite modulus or modulus above 2^31") { i64 m; switch (g.raw(6)) { case 0: m = g.in(1, 100); break; case 1: m = gen_shape(g, 1000000); break; case 2: m = gen_shape(g, INT_MAX); break; case 3: { u64 p = gen_prime(g, 1000); m = 1; for (int e = g.in(1, 6); e--;) if (m < 1000000) m *= p; if (g.coin()) m *= 2; break; } case 4: m = gen_shape(g, 5000000000LL); break; default: { u64 p = gen_prime(g, 1000000); m = p * gen_shape(g, 100000); } } if (m < 1) m = 1; g.note(m); if (m <= INT_MAX && g.coin()) ordm<int>(g, m); else ordm<i64>(g, m); g.nontrivial(!isp(m) || m >> 31); }
using M = atcoder::modint; using DL = atcoder::dynamic_modint<77>;
static int dl_brute(i64 a, i64 b, i64 m) { i64 v = 1 % m; for (int i = 0; i <= m; ++i) { if (v == b % m) return i; v = v * a % m; } return -1; }
PBT(discrete_log_small, 20000, "answer at least 10") { int m = g.coin() ? g.in(1, 60) : g.in(1, 1500); int a = g.raw(m), b = g.raw(m); if (g.coin()) { int e = g.raw(m + 1); b = pw(a, e, m); } g.note(a, "^x=", b, " mod ", m); int w = dl_brute(a, b, m); if (m > 1 || true) { DL::set_mod(m); int r = suisen::discrete_logarithm(DL(a), DL(b)); EQ(r, w); EQ(DL::mod(), m); if (std::gcd(a, m) == 1) EQ(suisen::discrete_logarithm_coprime(DL(a), DL(b)), w); } EQ(suisen::fast_discrete_logarithm::discrete_logarithm(a, b, m), w); g.nontrivial(w >= 10); }
static bool dl_check(Gen& g, i64 a, i64 b, i64 m, int r, const char* who, int hint) { if (r == -1) { CKM(hint < 0, std::string(who) + " misses a solution"); if (std::gcd(a, m) == 1 && isp(m) && a % m) { i64 d = m - 1; for (auto [p, c] : fac(m - 1)) while (d % p == 0 && pw(a, d / p, m) == 1) d /= p; CKM(b % m == 0 || pw(b, d, m) != 1, std::string(who) + " misses a solution"); } return false; } CKM(r >= 0 && pw(a, r, m) == u64(b % m), who); CKM(hint < 0 || r <= hint, std::string(who) + " not minimal"); if (std::gcd(a, m) == 1) { i64 d = phi(m); for (auto [p, c] : fac(d)) while (d % p == 0 && pw(a, d / p, m) == 1 % (u64)m) d /= p; CKM(r < d, std::string(who) + " not minimal"); } return true; }
PBT(discrete_log_large, 700, "solution found with modulus above 10^8") { auto ppow = [&] { i64 p = (i64)g.pick<int>({ 2, 3, 3, 5, 7, 11, 13, 29, 101, 1009, 46337 }), q = p, lim = g.coin() ? INT_MAX : INT_MAX >> g.in(1, 12); while (q * p <= lim) q *= p; return q; }; i64 m = g.chance(1, 4) ? ppow() : g.chance(1, 2) ? gen_prime(g, INT_MAX) : gen_shape(g, g.pick<u64>({ 1000000, 1000000000, INT_MAX })); if (m < 2) m = 2; i64 a = g.raw(m), b; int e = -1; if (g.coin()) { e = g.range(0, INT_MAX); b = pw(a, e, m); } else b = g.raw(m); if (g.chance(1, 3)) { auto f = fac(m); if (f.size()) a = u64(u128(a) * g.pick(f).first % m); b = e >= 0 ? (i64)pw(a, e, m) : b; } g.note(a, "^x=", b, " mod ", m); int r2 = suisen::fast_discrete_logarithm::discrete_logarithm(a, b, m); bool f = dl_check(g, a, b, m, r2, "fast_discrete_logarithm", e); DL::set_mod(m); int r1 = suisen::discrete_logarithm(DL((int)a), DL((int)b)); EQ(r1, r2); g.nontrivial(f && m > 100000000); }
PBT(index_calculus_reuse, 120, "two queries of one base answered") { int p = gen_prime(g, g.pick<u64>({ 300, 100000, 1000000000, INT_MAX })); suisen::fast_discrete_logarithm::IndexCalculus ic; int a = g.raw(p), n = 0; for (int q = g.in(2, 5); q--;) { if (g.chance(1, 4)) a = g.raw(p); if (g.chance(1, 6)) p = gen_prime(g, 1000000), a = g.raw(p); int e = g.coin() ? (int)g.raw(p) : -1; int b = e >= 0 ? (int)pw(a, e, p) : (int)g.raw(p); g.note(a, "^x=", b, " mod ", p); int r = ic(a, b, p); n += dl_check(g, a, b, p, r, "IndexCalculus", e); } g.nontrivial(n >= 2 && p > 64); }

// moduli and elements of the full 64 bits: the order is certified by its own prime factors
PBT(order_wide, 300, "modulus of 64 bits, element of 64 bits") {
    u64 m; switch (g.raw(3)) { case 0: m = prime_below(u64(-1) - g.raw(1ULL << 62)); break; case 1: { u64 p = prime_below((1ULL << 32) - 1 - g.raw(1ULL << 30)), q = prime_below((1ULL << 32) - 1 - g.raw(1ULL << 30)); if (p == q) q = prime_below(q - 1); m = p * q; break; } default: m = prime_below((1ULL << g.in(60, 63)) - 1 + g.raw(1000)); }
    suisen::OrderMod<unsigned long long> o(m); bool pr = isp(m); EQ((u64)o.mod(), m); EQ(o.is_prime(), pr); if (pr) EQ((u64)o.totient(), m - 1);
    u64 la = o.carmichael(); CK(la && o.totient() % la == 0); auto pf = o.carmichael_prime_factors(); { u64 x = la; for (u64 q : pf) { CK(isp(q)); CK(x % q == 0); while (x % q == 0) x /= q; } EQ(x, (u64)1); }
    for (int k = 3; k--;) { u64 a = g.coin() ? m - 1 - g.raw(1000) : g.u64any() % m; if (a == 0 || std::gcd(a, m) != 1) { CK(!o.is_primitive_root(a)); continue; } g.note(a, " mod ", m); u64 d = o(a); CK(d && la % d == 0); EQ(pw(a, d, m), (u64)1); for (u64 q : pf) if (d % q == 0) CKM(pw(a, d / q, m) != 1, "a smaller order"); EQ(o.is_primitive_root(a), d == (u64)o.totient()); if (m >> 63 && a >> 63) g.nontrivial(); }
    if (pr) { u64 r = o.primitive_root(); CK(r && r < m); for (u64 q : pf) CK(pw(r, (m - 1) / q, m) != 1); }
}

// prime powers up to the full width: totient and Carmichael function in closed form, orders certified
template <class T> static void prime_power_order(Gen& g) {
    using U = std::make_unsigned_t<T>; const U lim = std::numeric_limits<T>::max(); U p = g.coin() ? 2 : g.pick<U>({ 3, 5, 7, 11, 101 }); int emax = 0; for (U x = lim; x >= p; x /= p) ++emax;
    int e = g.coin() ? emax - (int)g.raw(std::min(emax, 3)) : p == 2 && g.coin() ? std::min(emax, (int)g.in(29, 34)) : g.in(1, emax); U m = 1; for (int i = 0; i < e; ++i) m *= p; if (p != 2 && g.chance(1, 3) && m <= lim / 2) m *= 2;
    g.note(p, "^", e, " modulus ", m); suisen::OrderMod<T> o{ T(m) }; U q = m % p == 0 && p != 2 && m % 2 == 0 ? m / 2 : m, ph = q / p * (p - 1), la = p == 2 && e >= 3 ? ph / 2 : ph; EQ((U)o.mod(), m); EQ((U)o.totient(), ph); EQ((U)o.carmichael(), la); EQ(o.is_prime(), m == p);
    std::vector<u64> pf; for (auto [r, c] : fac((i64)la)) pf.push_back(r);
    for (int k = 4; k--;) { U a = g.chance(1, 3) ? U(m - 1 - g.raw(std::min<u64>(m, 5))) : g.coin() ? U(g.raw(std::min<u64>(m, 9))) : U(g.u64any() % m); if (a == 0 || std::gcd(a, m) != 1) continue; g.note("order of ", a); u64 d = (U)o(a); CK(d && la % d == 0); EQ(pw(a, d, m), (u64)1 % m); for (u64 r : pf) if (d % r == 0) CKM(pw(a, d / r, m) != 1, "a smaller order"); EQ(o.is_primitive_root(a), d == (u64)ph); }
    if (la == ph) { U r = o.primitive_root(); CK(std::gcd(r, m) == 1); for (u64 x : pf) if (m > 2) CK(pw(r, ph / x, m) != 1); }
    g.nontrivial(e >= 20);
}
PBT(order_prime_power, 1500, "exponent at least 20") { switch (g.raw(3)) { case 0: prime_power_order<int>(g); break; case 1: prime_power_order<long long>(g); break; default: prime_power_order<unsigned>(g); } }
