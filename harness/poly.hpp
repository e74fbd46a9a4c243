// naive polynomial arithmetic over a modint type M, independent of the library
#pragma once
#include "num.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
namespace hv {
template <class M> using V = std::vector<M>;
template <class M> V<M> pmul(const V<M>& a, const V<M>& b, int n = -1) { if (a.empty() || b.empty()) return V<M>(n < 0 ? 0 : n); int m = (int)(a.size() + b.size()) - 1; if (n < 0) n = m; V<M> c(n); for (int i = 0; i < (int)a.size() && i < n; ++i) if (a[i].val()) for (int j = 0; j < (int)b.size() && i + j < n; ++j) c[i + j] += a[i] * b[j]; return c; }
template <class M> V<M> ptrim(V<M> a) { while (a.size() && a.back().val() == 0) a.pop_back(); return a; }
template <class M> V<M> padd(V<M> a, const V<M>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] += b[i]; return a; }
template <class M> V<M> psub(V<M> a, const V<M>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] -= b[i]; return a; }
template <class M> V<M> pscale(V<M> a, M c) { for (auto& x : a) x *= c; return a; }
template <class M> V<M> pdiff(const V<M>& a) { V<M> r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * M((int)i)); return r; }
template <class M> V<M> pfit(V<M> a, int n) { a.resize(n); return a; }
template <class M> bool peq(const V<M>& a, const V<M>& b) { return ptrim(a) == ptrim(b); }   // as polynomials
template <class M> bool pmodeq(const V<M>& a, const V<M>& b, int n) { return pfit(a, n) == pfit(b, n); }   // modulo x^n
template <class M> V<M> ppow(V<M> b, unsigned long long k, int n) { V<M> r = pfit(V<M>{ M(1) }, n); for (b = pfit(b, n); k; k >>= 1) { if (k & 1) r = pmul(r, b, n); if (k > 1) b = pmul(b, b, n); } return r; }
template <class M> M peval(const V<M>& a, M x) { M y = 0; for (size_t i = a.size(); i-- > 0;) y = y * x + a[i]; return y; }
template <class M> V<M> pinv(const V<M>& f, int n) { V<M> g(n); M c = f[0].inv(); for (int i = 0; i < n; ++i) { M s = i == 0; for (int j = 1; j <= i && j < (int)f.size(); ++j) s -= f[j] * g[i - j]; g[i] = s * c; } return g; }
// coefficient vector: dense, sparse, small, with leading zero coefficients, with trailing zeros
template <class M> V<M> gpoly(Gen& g, int n) { V<M> v(n); int mode = g.raw(5); auto any = [&] { return g.chance(1, 8) ? M(-1) : M((i64)g.raw(M::mod())); }; if (mode == 0) { int k = g.in(0, 6); for (int t = 0; t < k && n; ++t) v[g.raw(n)] = any(); } else for (auto& x : v) x = mode == 1 ? M((int)g.raw(3)) : mode == 2 ? (g.chance(1, 5) ? any() : M(0)) : any(); if (n && g.chance(1, 6)) { int z = g.in(0, std::min(n, 8)); for (int i = 0; i < z; ++i) v[n - 1 - i] = 0; } return v; }
inline int plen(Gen& g, int lo, int hi) { switch (g.raw(4)) { case 0: return g.in(lo, std::min(hi, lo + 8)); case 1: return g.in(std::max(lo, 56), 66); case 2: return g.in(lo, 70); default: return g.in(lo, hi); } }
}
