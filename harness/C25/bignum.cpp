#include <climits>
#include "num.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/math/bigint.hpp"
#include "library/number/factorial_number.hpp"
using namespace hv;
// schoolbook decimal reference (little-endian base 10^4, no leading zeros)
struct B { std::vector<int> d; bool neg = false; void fix() { while (d.size() && !d.back()) d.pop_back(); if (d.empty()) neg = false; } };
static B b_of(std::string s) { B r; if (s[0] == '-') r.neg = true, s = s.substr(1); for (int i = s.size(); i > 0; i -= 4) r.d.push_back(std::stoi(s.substr(std::max(0, i - 4), i - std::max(0, i - 4)))); r.fix(); return r; }
static std::string b_str(const B& b) { if (b.d.empty()) return "0"; std::string s = b.neg ? "-" : ""; s += std::to_string(b.d.back()); for (int i = (int)b.d.size() - 2; i >= 0; --i) { char t[8]; snprintf(t, 8, "%04d", b.d[i]); s += t; } return s; }
static int cmpu(const B& a, const B& b) { if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1; for (int i = (int)a.d.size() - 1; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static B addu(const B& a, const B& b) { B r; int c = 0; for (size_t i = 0; i < std::max(a.d.size(), b.d.size()) || c; ++i) { c += (i < a.d.size() ? a.d[i] : 0) + (i < b.d.size() ? b.d[i] : 0); r.d.push_back(c % 10000); c /= 10000; } return r; }
static B subu(const B& a, const B& b) { B r; int c = 0; for (size_t i = 0; i < a.d.size(); ++i) { c += a.d[i] - (i < b.d.size() ? b.d[i] : 0); r.d.push_back((c + 10000) % 10000); c = c < 0 ? -1 : 0; } r.fix(); return r; }
static B b_add(const B& a, const B& b) { B r; if (a.neg == b.neg) { r = addu(a, b); r.neg = a.neg; } else if (cmpu(a, b) >= 0) { r = subu(a, b); r.neg = a.neg; } else { r = subu(b, a); r.neg = b.neg; } r.fix(); return r; }
static B b_mul(const B& a, const B& b) { B r; if (a.d.empty() || b.d.empty()) return r; std::vector<u64> t(a.d.size() + b.d.size()); for (size_t i = 0; i < a.d.size(); ++i) for (size_t j = 0; j < b.d.size(); ++j) t[i + j] += (u64)a.d[i] * b.d[j]; u64 c = 0; for (auto x : t) { c += x; r.d.push_back(c % 10000); c /= 10000; } r.neg = a.neg != b.neg; r.fix(); return r; }
static B b_neg(B a) { a.neg = !a.neg; a.fix(); return a; }
static int b_cmp(const B& a, const B& b) { if (a.neg != b.neg) return a.neg ? -1 : 1; int c = cmpu(a, b); return a.neg ? -c : c; }
static std::string digits(Gen& g, int n) { if (n <= 0) return "0"; std::string s(n, '0'); switch (g.raw(6)) { case 0: s[0] = '1'; break; case 1: for (auto& c : s) c = '9'; break; case 2: { for (auto& c : s) c = '0' + g.raw(10); for (int k = g.in(1, 4); k--;) { int l = g.raw(n), len = g.in(1, 40); for (int i = l; i < std::min(n, l + len); ++i) s[i] = g.coin() ? '0' : '9'; } break; } case 3: s[0] = '5'; if (g.coin()) s[n - 1] = '1'; break; default: for (auto& c : s) c = '0' + g.raw(10); } if (s[0] == '0') s[0] = '1' + g.raw(9); return s; }
template <class T> static std::string st(const T& v) { return std::string(v); }
// one binary-operation check used for small and large operands
static void uops(Gen& g, const std::string& sa, const std::string& sb) { using U = suisen::unsigned_bigint; U a(sa), b(sb); B x = b_of(sa), y = b_of(sb); EQ(st(a), b_str(x)); EQ(st(b), b_str(y)); EQ((bool)a, !x.d.empty()); int c = cmpu(x, y); EQ(a == b, c == 0); EQ(a != b, c != 0); EQ(a < b, c < 0); EQ(a <= b, c <= 0); EQ(a > b, c > 0); EQ(a >= b, c >= 0); EQ(st(a + b), b_str(addu(x, y))); if (c >= 0) { EQ(st(a - b), b_str(subu(x, y))); U t = a; t -= b; EQ(st(t), b_str(subu(x, y))); CK(t == U(b_str(subu(x, y)))); } EQ(st(a * b), b_str(b_mul(x, y))); { U t = a; t += b; EQ(st(t), b_str(addu(x, y))); t = a; t *= b; CK(t == a * b); t = a; t += t; EQ(st(t), b_str(addu(x, x))); t = a; t *= t; EQ(st(t), b_str(b_mul(x, x))); t = a; t -= t; CK(!t && t == U()); t = a; ++t; EQ(st(t), b_str(addu(x, b_of("1")))); U o = t--; EQ(st(o), b_str(addu(x, b_of("1")))); CK(t == a); o = t++; CK(o == a); --t; CK(t == a); } if (b) { auto [q, r] = U::divmod(a, b); CKM(r < b, "remainder not below divisor"); EQ(b_str(b_add(b_mul(b_of(st(q)), y), b_of(st(r)))), b_str(x)); CK(a / b == q && a % b == r); U t = a; t /= b; CK(t == q); t = a; t %= b; CK(t == r); if (a) { t = a; t /= t; EQ(st(t), "1"); } } int k = g.in(0, 3); std::string z(9 * k, '0'); EQ(st(a << k), x.d.empty() ? "0" : b_str(x) + z); auto s = b_str(x); EQ(st(a >> k), (int)s.size() <= 9 * k ? "0" : s.substr(0, s.size() - 9 * k)); { std::stringstream io; io << a; EQ(io.str(), s); U t; io >> t; CK(t == a); } }
PBT(unsigned_bigint, 20000, "both operands at least 10 digits", 8, 14) { auto a = digits(g, g.size(0, 60)), b = digits(g, g.chance(1, 4) ? (int)a.size() : g.size(0, 60)); if (g.chance(1, 8)) b = a; g.note(a, " ", b); uops(g, a, b); g.nontrivial(a.size() >= 10 && b.size() >= 10); }
PBT(unsigned_bigint_large, 600, "both operands at least 600 digits") { int m = g.pick({ 700, 1400, 2500, 6000 }); auto a = digits(g, g.in(1, m)), b = digits(g, g.chance(1, 4) ? (int)a.size() : g.in(1, m)); uops(g, a, b); g.nontrivial(a.size() >= 600 && b.size() >= 600); }
PBT(unsigned_bigint_division_large, 400, "quotient and divisor at least 600 digits") { auto q = digits(g, g.in(500, 3000)), b = digits(g, g.in(500, 3000)); B x = b_mul(b_of(q), b_of(b)); std::string a = b_str(g.coin() ? x : b_add(x, b_of(g.coin() ? std::string("-1") : digits(g, g.in(1, (int)b.size()))))); using U = suisen::unsigned_bigint; auto [Q, R] = U::divmod(U(a), U(b)); CK(R < U(b)); EQ(b_str(b_add(b_mul(b_of(st(Q)), b_of(b)), b_of(st(R)))), a); g.nontrivial(q.size() >= 600 && b.size() >= 600); }
template <class T> static void conv(Gen& g) { T v = (T)g.u64any(); if (sizeof(T) <= 8) { suisen::bigint a(v); EQ(st(a), std::to_string(v)); EQ((T)a == v, true); if (v >= 0) { suisen::unsigned_bigint u(v); EQ(st(u), std::to_string(v)); EQ((T)u == v, true); CK(suisen::bigint(u) == a); CK(suisen::unsigned_bigint(a) == u); } } g.nontrivial((u64)v > 1000000000ULL); }
PBT(bigint_conversions, 20000, "absolute value above 10^9") { switch (g.raw(8)) { case 0: conv<int>(g); break; case 1: conv<unsigned>(g); break; case 2: conv<long>(g); break; case 3: conv<unsigned long>(g); break; case 4: conv<long long>(g); break; case 5: conv<unsigned long long>(g); break; case 6: { auto s = digits(g, g.in(1, 38)); std::string z(g.in(0, 20), '0'); suisen::bigint a(z + s), b("-" + z + s), c(s.c_str()); CK(a == c); EQ(st(a), s); EQ(st(b), b_str(b_neg(b_of(s)))); u128 w = 0; for (char ch : s) w = w * 10 + (ch - '0'); CK((__uint128_t)a == w); CK((__int128_t)b == -(i128)w); long double f = (long double)a; CK(std::abs(f - (long double)w) <= (long double)w * 1e-15L); CK(std::abs((double)b + (double)w) <= (double)w * 1e-12); g.nontrivial(s.size() > 9); break; } default: { suisen::bigint z("0"), y("-000"), x; CK(z == x && y == x && !z && !y); CK(z == suisen::bigint(0)); suisen::bigint zz = suisen::bigint::ZERO, on = suisen::bigint::ONE; CK(zz == x && st(on) == "1"); suisen::unsigned_bigint uz = suisen::unsigned_bigint::ZERO, uo = suisen::unsigned_bigint::ONE, us("0000"); CK(!uz && st(uo) == "1" && us == uz); suisen::unsigned_bigint uc("000000000000123"); EQ(st(uc), "123"); CK(uc == suisen::unsigned_bigint(123)); CK(uc < suisen::unsigned_bigint("1000000000")); } } }
static std::string sd(Gen& g, int m) { auto s = digits(g, g.size(0, m)); return s != "0" && g.coin() ? "-" + s : s; }
// histories of signed operations on one accumulator
PBT(bigint_history, 12000, "both signs occur and a value above 20 digits", 8, 13) { using I = suisen::bigint; I a(sd(g, 30)); B x = b_of(st(a)); bool ng = false, ps = false, bg = false; for (int q = g.in(1, 12); q--;) { auto s = g.chance(1, 6) ? st(a) : g.chance(1, 8) ? st(-a) : sd(g, 40); I b(s); B y = b_of(s); g.note(st(a), " with ", s); int c = b_cmp(x, y); EQ(a == b, c == 0); EQ(a != b, c != 0); EQ(a < b, c < 0); EQ(a <= b, c <= 0); EQ(a > b, c > 0); EQ(a >= b, c >= 0); EQ(st(+a), b_str(x)); EQ(st(-a), b_str(b_neg(x))); switch (g.raw(11)) { case 0: a += b; x = b_add(x, y); break; case 1: a -= b; x = b_add(x, b_neg(y)); break; case 2: a = a + b; x = b_add(x, y); break; case 3: a = a - b; x = b_add(x, b_neg(y)); break; case 4: if (x.d.size() < 60) { if (g.coin()) a *= b; else a = a * b; x = b_mul(x, y); } break; case 5: if (b) { auto [qq, r] = I::divmod(a, b); EQ(b_str(b_add(b_mul(b_of(st(qq)), y), b_of(st(r)))), b_str(x)); B ry = b_of(st(r)); CK(cmpu(ry, y) < 0); CKM(ry.d.empty() || ry.neg == x.neg, "remainder has the wrong sign"); CK(a / b == qq && a % b == r); if (g.coin()) a /= b, x = b_of(st(qq)); else a %= b, x = ry; } break; case 6: if (g.coin()) { I o = a++; EQ(st(o), b_str(x)); } else ++a; x = b_add(x, b_of("1")); break; case 7: if (g.coin()) { I o = a--; EQ(st(o), b_str(x)); } else --a; x = b_add(x, b_of("-1")); break; case 8: a = -a; x = b_neg(x); break; case 9: { int k = g.in(0, 2); if (g.coin()) { if (x.d.size() < 60) { a <<= k; for (; k--;) x = b_mul(x, b_of("1000000000")); } } else { a >>= k; auto t = b_str(x); bool n = t[0] == '-'; if (n) t = t.substr(1); t = (int)t.size() <= 9 * k ? "0" : t.substr(0, t.size() - 9 * k); x = b_of((n ? "-" : "") + t); } break; } default: if (g.coin()) a -= a, x = B(); else a += a, x = b_add(x, x); } EQ(st(a), b_str(x)); EQ((bool)a, !x.d.empty()); CK(a == I(b_str(x))); ng |= x.neg; ps |= !x.neg && x.d.size(); bg |= x.d.size() > 5; } g.nontrivial(ng && ps && bg); }
PBT(factorial_number, 20000, "n at least 4") { using F = suisen::factorial_number; int n = g.coin() ? g.in(0, 9) : g.in(10, 20); i64 N = 1; for (int i = 2; i <= n; ++i) N *= i; auto md = [&](i128 v) { v %= N; if (v < 0) v += N; return (u64)v; }; bool full = g.coin(); i64 lo = full ? LLONG_MIN : -1000000000000LL, hi = full ? LLONG_MAX : 1000000000000LL; i64 v = g.edgy(lo, hi), w = g.edgy(lo, hi), k = full ? g.edgy(lo, hi) : g.edgy(-1000000, 1000000); g.note("n ", n, " ", v, " ", w, " ", k); F a(n, v), b(n, w); EQ(a.size(), n); EQ((u64)a.to_ull(), md(v)); EQ((u64)(a + b).to_ull(), md((i128)v + w)); EQ((u64)(a - b).to_ull(), md((i128)v - w)); EQ((u64)(-a).to_ull(), md(-(i128)v)); EQ((u64)(a + w).to_ull(), md((i128)v + w)); EQ((u64)(w + a).to_ull(), md((i128)v + w)); EQ((u64)(a - w).to_ull(), md((i128)v - w)); EQ((u64)(w - a).to_ull(), md((i128)w - v)); EQ((u64)(a * k).to_ull(), md((i128)v * k)); EQ((u64)(k * a).to_ull(), md((i128)v * k)); { F c = a; c += w; c -= v; CK(c == b); c *= k; EQ((u64)c.to_ull(), md((i128)w * k)); c = a; CK(c++ == a); CK(c == a + 1); CK(--c == a); CK(c-- == a); CK(++c == a); c += c; CK(c == a * 2); c = a; c -= c; EQ((u64)c.to_ull(), 0ULL); } u64 x = md(v), y = md(w); EQ(a == b, x == y); EQ(a != b, x != y); EQ(a < b, x < y); EQ(a > b, x > y); EQ(a <= b, x <= y); EQ(a >= b, x >= y); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); std::vector<int> used = p, pr; u64 t = x, f = N; for (int i = 0; i < n; ++i) { f /= n - i; int j = t / f; t %= f; pr.push_back(used[j]); used.erase(used.begin() + j); } EQ(a.to_permutation(), pr); CK(F(pr) == a); F z; EQ(z.size(), 1); EQ((u64)z.to_ull(), 0ULL); F c = a; int n2 = g.in(0, 20); c.resize(n2); i64 N2 = 1; for (int i = 2; i <= n2; ++i) N2 *= i; EQ(c.size(), n2); EQ((u64)c.to_ull(), n2 >= n ? x : x % (u64)N2); g.nontrivial(n >= 4); }
PBT(factorial_number_large, 1500, "n at least 40") { using F = suisen::factorial_number; int n = g.in(15, 200); auto p = g.perm(n), q = g.perm(n); F a(p), b(q); EQ(a.to_permutation(), p); EQ(a < b, p < q); EQ(a == b, p == q); auto r = p; bool nx = std::next_permutation(r.begin(), r.end()); EQ((a + 1).to_permutation(), r); F d = b - a; CK(a + d == b); CK(a - b == -d); F t = a; for (int i = 0; i < 5; ++i) { ++t; CK(t == a + (i + 1)); } i64 k = g.edgy(-1000000000000000000LL, 1000000000000000000LL), l = g.edgy(-1000000000LL, 1000000000LL); CK(a * l + b * l == (a + b) * l); CK((a + k) - k == a); EQ((u64)F(n, std::abs(k)).to_ull(), n > 20 ? (u64)std::abs(k) : (u64)F(n, std::abs(k)).to_ull()); g.nontrivial(n >= 40 && nx); }
