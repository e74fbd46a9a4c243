#include "large.hpp"
#include "poly.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/transform/divisor.hpp"
#include "library/transform/multiple.hpp"
#include "library/transform/chirp_z_transform.hpp"
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007;
template <class M> static std::vector<M> rv(Bulk& b, int n, int mode) { std::vector<M> v(n); for (auto& x : v) x = mode == 0 ? M(-1) : M((i64)b.raw(M::mod())); return v; }
// every coefficient of a wrong product shifts the value at a random point
template <class M> static void prod(Bulk& b, const std::vector<M>& x, const std::vector<M>& y, const std::vector<M>& z) { EQ(z.size(), x.size() + y.size() - 1); for (int t = 0; t < 3; ++t) { M p = (i64)b.raw(M::mod()); CKM(peval(x, p) * peval(y, p) == peval(z, p), "value of the product at a random point"); } }
PBT(arbitrary_mod_large, 4, "every case: more than 2^15 coefficients") {
    int n = big_n(g, 100000), m = g.coin() ? big_n(g, 100000) : g.in(1, 3000); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m); int mode = g.raw(2);
    switch (g.raw(3)) { case 0: { auto x = rv<MB>(b, n, mode), y = rv<MB>(b, m, mode); prod(b, x, y, arbitrary_mod_convolution(x, y)); } break; case 1: { using M = atcoder::static_modint<2147483647>; auto x = rv<M>(b, n, mode), y = rv<M>(b, m, mode); prod(b, x, y, arbitrary_mod_convolution(x, y)); } break; default: { using M = atcoder::dynamic_modint<7071>; M::set_mod(2147483629); auto x = rv<M>(b, n, mode), y = rv<M>(b, m, mode); prod(b, x, y, arbitrary_mod_convolution(x, y)); } }
}
PBT(integer_products_large, 4, "every case: more than 2^15 coefficients") {
    int n = big_n(g, 100000), m = g.coin() ? big_n(g, 100000) : g.in(61, 3000); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m);
    std::vector<unsigned long long> x(n), y(m); bool mx = g.coin(); for (auto& v : x) v = mx ? ~0ULL : b.next(); for (auto& v : y) v = mx ? ~0ULL : b.next(); auto z = convolution_mod_2_64(x, y); EQ((int)z.size(), n + m - 1); auto ev = [](const std::vector<unsigned long long>& c, u64 p) { u64 r = 0; for (size_t i = c.size(); i--;) r = r * p + c[i]; return r; }; for (int t = 0; t < 3; ++t) { u64 p = b.next() | 1; CK(ev(x, p) * ev(y, p) == ev(z, p)); }
    std::vector<int> s(n), t(m); for (auto& v : s) v = mx ? INT_MAX : b.in(0, INT_MAX); for (auto& v : t) v = mx ? INT_MAX : b.in(0, INT_MAX); auto w = suisen::convolution_int(s, t); EQ((int)w.size(), n + m - 1); const u64 Q = (1ULL << 61) - 1; for (int k = 0; k < 3; ++k) { u64 p = b.raw(Q); auto e = [&](const auto& c) { u64 r = 0; for (size_t i = c.size(); i--;) r = u64((u128(r) * p + u64(u128(c[i]) % Q)) % Q); return r; }; CK(u64(u128(e(s)) * e(t) % Q) == e(w)); }
}
PBT(beyond_the_root_order_large, 3, "every case: tens of times the order of the roots") {
    using M = atcoder::static_modint<7681>; using L = atcoder::static_modint<12289>; Bulk b(g); g.nontrivial(); int n = g.in(10000, 20000), m = g.in(5000, 20000); g.note("n ", n, " m ", m); auto go = [&](auto z) { using T = decltype(z); auto x = rv<T>(b, n, g.raw(2)), y = rv<T>(b, m, 1); auto r = convolution_large(x, y); EQ((int)r.size(), n + m - 1); auto one = [&](int k) { T s = 0; for (int i = std::max(0, k - m + 1); i <= k && i < n; ++i) s += x[i] * y[k - i]; return s; }; for (int q = 0; q < 600; ++q) { int k = b.raw(n + m - 1); CKM(r[k] == one(k), "coefficient " + std::to_string(k)); } T sx = 0, sy = 0, sr = 0; for (auto v : x) sx += v; for (auto v : y) sy += v; for (auto v : r) sr += v; CK(sx * sy == sr); }; if (g.coin()) go(M(0)); else go(L(0));
}
PBT(multivariate_large, 4, "every case: more than 2^14 coefficients") {
    std::vector<int> d; switch (g.raw(4)) { case 0: d.assign(14, 2); break; case 1: d = { 150, 130 }; break; case 2: d = { 3, 4, 5, 6, 7, 8 }; break; default: d = { 20000, 1 }; } Bulk b(g); g.nontrivial(); g.note(d); int n = 1; for (int x : d) n *= x; auto x = rv<MP>(b, n, 1), y = rv<MP>(b, n, 0), s = std::vector<MP>(n); std::vector<int> at; for (int t = 0; t < 40; ++t) { int i = b.raw(n); at.push_back(i); s[i] = (i64)b.raw(P); }
    auto ref = [&](const std::vector<MP>& f, bool circ) { std::vector<MP> w(n); for (int i : std::set<int>(at.begin(), at.end())) for (int j = 0; j < n; ++j) { int k = 0, pr = 1, p = i, q = j; bool ok = true; for (int e : d) { int c = p % e + q % e; if (c >= e) { ok = ok && circ; c -= e; } k += pr * c; pr *= e; p /= e; q /= e; } if (ok) w[k] += f[j] * s[i]; } return w; };
    multi_variate_convolution mv(d); CK(mv.convolution(x, s) == ref(x, false)); CK(mv(s, y) == ref(y, false)); multi_variate_convolution_circular<MP> c(d); CK(c(x, s) == ref(x, true)); CK(c(s, y) == ref(y, true));
}
PBT(multiplicative_mod_2n_large, 3, "every case: at least 15 bits") {
    int k = g.in(15, 17), n = 1 << k; Bulk b(g); g.nontrivial(); auto x = rv<MP>(b, n, 1), s = std::vector<MP>(n), w = s; for (int t = 0; t < 40; ++t) s[(t < 20 ? b.raw(n) | 1 : b.raw(n)) & (n - 1)] = (i64)b.raw(P); s[0] = 5; for (int i = 0; i < n; ++i) if (s[i].val()) for (int j = 0; j < n; ++j) w[(u64(i) * j) & (n - 1)] += s[i] * x[j]; CK(multiplicative_convolution_mod_2_n(x, s) == w);
}
static std::vector<MP> cv(const std::vector<MP>& a, const std::vector<MP>& b) { return atcoder::convolution(a, b); }
PBT(relaxed_large, 3, "every case: more than 2^15 appended coefficients") {
    int n = g.in(33000, 40000), m = g.coin() ? g.in(33000, 50000) : g.in(1, 3000); bool dep = g.coin(); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m); RelaxedConvolution<MP> r(cv); RelaxedConvolutionNTT<MP> t; std::vector<MP> x, y, h; for (int i = 0; i < n; ++i) { MP p = (i64)b.raw(P), q = (i64)b.raw(P); if (dep && i) p += h[i - 1], q -= h[b.raw(i)]; x.push_back(p); y.push_back(q); MP u = r.append(p, q); CK(u == t.append(p, q)); h.push_back(u); } auto w = cv(x, y); w.resize(n); CK(w == h);
    auto F = rv<MP>(b, m, 1); SemiRelaxedConvolution<MP> sr(F, cv); SemiRelaxedConvolutionNTT<MP> st(F); y.clear(); h.clear(); for (int i = 0; i < n; ++i) { MP q = (i64)b.raw(P); if (dep && i) q += h[i - 1]; y.push_back(q); MP u = sr.append(q); CK(u == st.append(q)); h.push_back(u); } w = cv(F, y); w.resize(n); CK(w == h);
}
PBT(bitwise_large, 3, "every case: at least 16 bits") {
    int k = g.in(16, 17), n = 1 << k; Bulk b(g); g.nontrivial(); auto x = rv<MP>(b, n, 1), s = std::vector<MP>(n), A = s, O = s, X = s; for (int t = 0; t < 30; ++t) s[t < 2 ? (t ? n - 1 : 0) : b.raw(n) & (t < 15 ? b.raw(n) & b.raw(n) : n - 1)] = (i64)b.raw(P); for (int i = 0; i < n; ++i) if (s[i].val()) for (int j = 0; j < n; ++j) { MP p = s[i] * x[j]; A[i & j] += p; O[i | j] += p; X[i ^ j] += p; }
    CKM(and_convolution<MP>(x, s) == A, "and"); CKM(or_convolution<MP>(s, x) == O, "or"); CKM(xor_convolution<MP>(x, s) == X, "xor"); if (k == 16) { int h = n / 4; std::vector<MP> p(x.begin(), x.begin() + h), q(s.begin(), s.begin() + h), w(h); for (int i = 0; i < h; ++i) if (q[i].val()) for (int j = 0; j < h; ++j) if (!(i & j)) w[i | j] += q[i] * p[j]; CKM(subset_convolution<MP>(p, q) == w, "subset"); }
    std::vector<i64> y(n), u(n), V(n); for (auto& v : y) v = b.range(-1000000, 1000000); for (int t = 0; t < 20; ++t) u[b.raw(n)] = b.range(-1000, 1000); for (int i = 0; i < n; ++i) if (u[i]) for (int j = 0; j < n; ++j) V[i ^ j] += u[i] * y[j]; CKM(xor_convolution<i64>(u, y) == V, "xor over the integers");
}
PBT(divisor_large, 3, "every case: more than 2^16 coefficients") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); g.note("n ", n); auto x = rv<MP>(b, n, 1), s = std::vector<MP>(n), G = s, D = s, C = s; for (int t = 0; t < 25; ++t) { int i = t < 12 ? 1 + b.raw(300) : 1 + b.raw(n - 1); s[t ? i : 1] = (i64)b.raw(P); } for (int i = 1; i < n; ++i) if (s[i].val()) for (int j = 1; j < n; ++j) { MP p = s[i] * x[j]; int q = std::gcd(i, j); G[q] += p; if ((i64)i * j < n) { D[(i64)i * j] += p; if (q == 1) C[(i64)i * j] += p; } }
    auto z = s, y = x; z[0] = y[0] = 0; CKM(gcd_convolution<MP>(y, z) == G, "gcd"); CKM(dirichlet_convolution<MP>(x, s, n) == D, "dirichlet"); CKM(dirichlet_convolution<MP>(s, x, n) == D, "dirichlet"); CKM(dirichlet_convolution_coprime<MP>(s, x, n) == C, "coprime dirichlet");
    auto L = lcm_convolution<MP>(y, z); std::vector<MP> W(n); for (int i = 1; i < n; ++i) if (z[i].val()) for (int j = 1; j < n; ++j) { i64 l = (i64)i / std::gcd(i, j) * j; if (l < n) W[l] += z[i] * y[j]; } L[0] = 0; CKM(L == W, "lcm");
    z = x; divisor_transform::zeta(z); std::vector<MP> w(n); for (int i = 1; i < n; ++i) for (int j = i; j < n; j += i) w[j] += x[i]; w[0] = z[0]; CK(z == w); divisor_transform::mobius(z); CK(z == x); multiple_transform::zeta(z); w.assign(n, 0); for (int i = 1; i < n; ++i) for (int j = i; j < n; j += i) w[i] += x[j]; w[0] = z[0]; CK(z == w); multiple_transform::mobius(z); CK(z == x);
}
PBT(chirp_z_large, 2, "every case: more than 2^15 coefficients") {
    int n = big_n(g, 70000), m = g.in(1, 70000); Bulk b(g); g.nontrivial(); auto f = rv<MP>(b, n, 1); MP a = (i64)b.raw(P), r = (i64)b.raw(P); auto z = chirp_z_transform(f, a, r, m); EQ((int)z.size(), m); for (int q = 0; q < 60; ++q) { int i = b.raw(m); CK(z[i] == peval(f, a * r.pow(i))); }
}
PBT(min_plus_large, 3, "every case: more than 2^15 elements") {
    int n = big_n(g, 100000), m = big_n(g, 100000); Bulk b(g); g.nontrivial(); g.note("n ", n, " m ", m); i64 sl = g.pick(std::vector<i64>{ 3, 1000, 1000000000000 }); auto cvx = [&](int n) { auto d = b.vec(n, -sl, sl); std::sort(d.begin(), d.end()); std::vector<i64> v(n); for (int i = 1; i < n; ++i) v[i] = v[i - 1] + d[i]; return v; }; auto x = cvx(n), y = cvx(m), z = b.vec(m, -sl * 20000, sl * 20000); if (g.coin()) for (int i = 0; i < m; ++i) z[i] = y[i] + b.range(-sl * 20, sl * 20);
    auto c = min_plus_convolution_convex_convex(x, y); EQ((int)c.size(), n + m - 1); std::vector<i64> d; for (int i = 1; i < n; ++i) d.push_back(x[i] - x[i - 1]); for (int i = 1; i < m; ++i) d.push_back(y[i] - y[i - 1]); std::sort(d.begin(), d.end()); i64 cur = x[0] + y[0]; for (int k = 0; k < n + m - 1; ++k) { if (k) cur += d[k - 1]; EQ(c[k], cur); }
    auto e = min_plus_convolution_convex_arbitrary(x, z); EQ((int)e.size(), n + m - 1); for (int q = 0; q < 500; ++q) { int k = q == 0 ? 0 : q == 1 ? n + m - 2 : b.raw(n + m - 1); i64 w = INT64_MAX; for (int i = std::max(0, k - m + 1); i <= k && i < n; ++i) w = std::min(w, x[i] + z[k - i]); EQ(e[k], w); }
}
