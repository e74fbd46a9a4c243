// Reference number theory for oracles.
#pragma once
#include "common.hpp"
namespace hv {
inline bool isp(u64 n) { if (n < 2) return false; for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) if (n % p == 0) return n == p; u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s; for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 y = pw(a, d, n); if (y == 1 || y == n - 1) continue; bool ok = false; for (int r = 1; r < s && !ok; ++r) { y = u64(u128(y) * y % n); ok = y == n - 1; } if (!ok) return false; } return true; }
inline u64 prime_below(u64 n) { while (n > 2 && !isp(n)) --n; return n < 2 ? 2 : n; }
inline u64 gen_prime(Gen& g, u64 lim) { u64 n = g.coin() ? g.raw(lim) : g.raw(2) ? lim - g.raw(std::min<u64>(lim, 1000)) : (lim >> g.raw(60)) + 2; if (n > lim) n = lim; return prime_below(n); }
// trial division (small n)
inline std::vector<std::pair<i64, int>> fac(i64 n) { std::vector<std::pair<i64, int>> r; for (i64 p = 2; p * p <= n; ++p) if (n % p == 0) { int c = 0; while (n % p == 0) n /= p, ++c; r.push_back({ p, c }); } if (n > 1) r.push_back({ n, 1 }); return r; }
inline i64 phi(i64 n) { i64 r = n; for (auto [p, c] : fac(n)) r = r / p * (p - 1); return r; }
// a composite / prime below lim with an interesting factorisation
inline u64 gen_shape(Gen& g, u64 lim) { switch (g.raw(9)) { case 0: return g.u64any() % lim + 1; case 1: return 1 + g.raw(lim); case 2: return lim - g.raw(std::min<u64>(lim, 50)); case 3: return gen_prime(g, lim); case 4: { u64 p = gen_prime(g, (u64)sqrtl((long double)lim)); while ((u128)p * p > lim) p = prime_below(p - 1); return p * p; } case 5: { u64 p = gen_prime(g, (u64)sqrtl((long double)lim)); u64 q = prime_below(lim / p); return p * q; } case 6: { u64 k = g.raw((u64)cbrtl((long double)lim / 1296) + 1) + 1; u128 v = (u128)(6 * k + 1) * (12 * k + 1) * (18 * k + 1); return v <= lim ? (u64)v : lim; } case 7: { u64 k = g.raw((u64)sqrtl((long double)lim / 2) + 1); while (k > 1 && ((u128)(k + 1) * (2 * k + 1) > lim || !(isp(k + 1) && isp(2 * k + 1)))) --k; u128 v = (u128)(k + 1) * (2 * k + 1); return v <= lim ? (u64)v : lim; } default: { u64 v = 1; u64 cap = g.coin() ? 100 : 100000; for (int t = g.in(1, 30); t--;) { u64 p = gen_prime(g, cap); if (v > lim / p) break; v *= p; } return v; } } }
} // namespace hv
