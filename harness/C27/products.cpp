#include "num.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include <numeric>
#include <array>
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/convolution_naive.hpp"
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007; using D0 = atcoder::dynamic_modint<7070>;
typedef unsigned __int128 W128;
// values: all-maximal, sparse, small or arbitrary
template <class T, class F> static std::vector<T> fill(Gen& g, int n, F any, T mx) { std::vector<T> v(n); int mode = g.raw(4); for (auto& x : v) switch (mode) { case 0: x = mx; break; case 1: x = g.chance(1, 6) ? any() : T(0); break; case 2: x = T((int)g.raw(3)); break; default: x = any(); } return v; }
template <class M> static std::vector<M> gm(Gen& g, int n) { return fill<M>(g, n, [&] { return M((i64)g.raw(M::mod())); }, M(-1)); }
template <class T> static std::vector<T> ref(const std::vector<T>& a, const std::vector<T>& b) { if (a.empty() || b.empty()) return {}; std::vector<T> c(a.size() + b.size() - 1, T(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static int len(Gen& g, int thr, int hi) { switch (g.raw(4)) { case 0: return g.in(0, 6); case 1: return g.in(thr - 2, thr + 4); default: return g.in(0, hi); } }
template <class M> static void arb(Gen& g) { int n = len(g, 121, 400), m = len(g, 121, 400); auto a = gm<M>(g, n), b = gm<M>(g, m); g.note("mod ", M::mod(), " n ", n, " m ", m); CKM(arbitrary_mod_convolution(a, b) == ref(a, b), "arbitrary mod convolution"); CKM(internal::convolution_naive(a, b) == ref(a, b), "naive"); g.nontrivial(n > 120 && m > 120); }
PBT(arbitrary_mod, 250, "both lengths above 120") { switch (g.raw(5)) { case 0: arb<MB>(g); break; case 1: arb<MP>(g); break; case 2: arb<atcoder::static_modint<2147483647>>(g); break; case 3: arb<atcoder::static_modint<2>>(g); break; default: D0::set_mod(g.coin() ? (int)g.range(1, 2147483647) : (int)g.range(1, 1000)); arb<D0>(g); } }
PBT(convolution_int, 250, "both lengths above 120 and values up to the largest int") { int n = len(g, 121, 400), m = len(g, 121, 400); auto mk = [&](int n) { return fill<int>(g, n, [&] { return (int)g.range(0, INT_MAX); }, INT_MAX); }; auto a = mk(n), b = mk(m); g.note("n ", n, " m ", m); auto c = suisen::convolution_int(a, b); std::vector<W128> x(a.begin(), a.end()), y(b.begin(), b.end()), w = ref(x, y); CK(c == w); g.nontrivial(n > 120 && m > 120); }
PBT(mod_2_64, 250, "both lengths above 60") { int n = len(g, 61, 300), m = len(g, 61, 300); auto mk = [&](int n) { return fill<u64>(g, n, [&] { return (u64)g.u64any(); }, ~0ULL); }; auto a = mk(n), b = mk(m); std::vector<unsigned long long> p(a.begin(), a.end()), q(b.begin(), b.end()); g.note("n ", n, " m ", m); auto c = convolution_mod_2_64(p, q); CK(c == ref(p, q)); g.nontrivial(n > 60 && m > 60); }
template <class M> static void large(Gen& g, int hi) { int n = len(g, 61, hi), m = len(g, 61, hi); auto a = gm<M>(g, n), b = gm<M>(g, m); g.note("mod ", M::mod(), " n ", n, " m ", m); CKM(convolution_large(a, b) == ref(a, b), "convolution_large"); int two = (M::mod() - 1) & -(M::mod() - 1); g.nontrivial(n > 60 && m > 60 && n + m - 1 > two); }
PBT(beyond_the_root_order, 250, "the product is longer than the modulus has roots of unity for") { switch (g.raw(4)) { case 0: large<atcoder::static_modint<7681>>(g, 900); break; case 1: large<atcoder::static_modint<193>>(g, 300); break; case 2: large<atcoder::static_modint<257>>(g, 700); break; default: large<atcoder::static_modint<97>>(g, 200); } }
// multivariate: truncated and circular
static std::vector<int> gdim(Gen& g, int lo, int cap) { int k = g.in(lo, 4); std::vector<int> d(k); int n = 1; for (auto& x : d) { x = std::max(1, std::min(g.chance(1, 3) ? g.in(1, 30) : g.in(1, 5), cap / n)); n *= x; } if (g.coin()) g.shuffle(d); return d; }
template <class T> static std::vector<T> mvref(const std::vector<int>& d, const std::vector<T>& f, const std::vector<T>& h, bool circ) { int n = f.size(); std::vector<T> r(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int k = 0, pr = 1, x = i, y = j; bool ok = true; for (int e : d) { int s = x % e + y % e; if (s >= e) { if (!circ) ok = false; s -= e; } k += pr * s; pr *= e; x /= e; y /= e; } if (ok) r[k] += f[i] * h[j]; } return r; }
PBT(multivariate, 400, "at least two dimensions of size at least 2") { auto d = gdim(g, 0, 300); int n = 1; for (int x : d) n *= x; auto f = gm<MP>(g, n), h = gm<MP>(g, n); g.note(d); multi_variate_convolution mv = d.empty() && g.coin() ? multi_variate_convolution() : multi_variate_convolution(d); EQ(mv.size(), n); EQ(mv.dim_num(), (int)d.size()); auto w = mvref(d, f, h, false); CK(mv.convolution(f, h) == w); CK(mv(f, h) == w); g.nontrivial(std::count_if(d.begin(), d.end(), [](int x) { return x > 1; }) >= 2); }
template <class M> static void circ(Gen& g, std::vector<int> d) { int n = 1; for (int x : d) n *= x; auto f = gm<M>(g, n), h = gm<M>(g, n); g.note("mod ", M::mod(), " dims ", d); suisen::multi_variate_convolution_circular<M> c(d); auto w = mvref(d, f, h, true); CKM(c.convolution(f, h) == w, "circular"); CKM(c(f, h) == w, "circular ()"); if (n < 100) CKM(c.convolution_naive(f, h) == w, "circular naive"); g.nontrivial(n > 60); }
PBT(multivariate_circular, 200, "more than 60 coefficients") { auto d = gdim(g, 0, 260); if (g.chance(1, 12)) { d.assign(1, g.in(101, 220)); if (g.coin()) d.push_back(2); } switch (g.raw(6)) { case 0: circ<MP>(g, d); break; case 1: circ<MB>(g, d); break; case 2: circ<atcoder::static_modint<91>>(g, d); break; case 3: circ<atcoder::static_modint<5>>(g, d); break; default: D0::set_mod(g.coin() ? (int)g.range(1, 2147483647) : (int)g.range(1, 200)); circ<D0>(g, d); } }
PBT(multiplicative_mod_2n, 60, "at least 7 bits, so that the fast algorithm runs") { int k = g.chance(1, 3) ? g.in(0, 6) : g.in(7, 10), n = 1 << k; auto a = gm<MP>(g, n), b = gm<MP>(g, n); g.note("k ", k); std::vector<MP> w(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[(unsigned)(i * j) & (n - 1)] += a[i] * b[j]; CK(multiplicative_convolution_mod_2_n(a, b) == w); g.nontrivial(k >= 7); }
// online: the k-th coefficient is available as soon as the first k+1 inputs are known; later inputs may depend on it
static std::vector<MP> cv(const std::vector<MP>& a, const std::vector<MP>& b) { return atcoder::convolution(a, b); }
PBT(relaxed, 200, "more than 128 appended coefficients") { int n = g.chance(1, 3) ? g.in(0, 20) : g.in(60, 420); bool dep = g.coin(); auto A = gm<MP>(g, n), B = gm<MP>(g, n); RelaxedConvolution<MP> r(cv), r2; r2.set_convolve_function(cv); RelaxedConvolutionNTT<MP> t; std::vector<MP> a, b, h; for (int i = 0; i < n; ++i) { MP x = A[i], y = B[i]; if (dep && i) { x += h[i - 1]; y -= h[g.raw(i)]; } a.push_back(x); b.push_back(y); MP s = 0; for (int j = 0; j <= i; ++j) s += a[j] * b[i - j]; h.push_back(s); MP u = r.append(x, y), v = t.append(x, y), w = r2.append(x, y); CKM(u == s, "relaxed " + std::to_string(i)); CKM(v == s, "relaxed ntt " + std::to_string(i)); CKM(w == s, "relaxed default " + std::to_string(i)); } auto R = r.get(), T = t.get(); for (int i = 0; i < n; ++i) { CK(r[i] == h[i] && t[i] == h[i]); CK(R[i] == h[i] && T[i] == h[i]); } g.nontrivial(n > 128); }
PBT(semi_relaxed, 300, "more than 128 appended coefficients") { int n = g.chance(1, 3) ? g.in(0, 20) : g.in(60, 420), m = g.chance(1, 3) ? g.in(1, 5) : g.in(1, 500); bool dep = g.coin(); auto F = gm<MP>(g, m), B = gm<MP>(g, n); SemiRelaxedConvolution<MP> r(F, cv), r2(F); r2.set_convolve_function(cv); SemiRelaxedConvolutionNTT<MP> t(F); std::vector<MP> b, h; for (int i = 0; i < n; ++i) { MP y = B[i]; if (dep && i) y -= h[g.raw(i)]; b.push_back(y); MP s = 0; for (int j = 0; j <= i && j < m; ++j) s += F[j] * b[i - j]; h.push_back(s); CKM(r.append(y) == s, "semi-relaxed " + std::to_string(i)); CKM(t.append(y) == s, "semi-relaxed ntt " + std::to_string(i)); CKM(r2.append(y) == s, "semi-relaxed default"); } auto R = r.get(), T = t.get(); for (int i = 0; i < n; ++i) { CK(r[i] == h[i] && t[i] == h[i]); CK(R[i] == h[i] && T[i] == h[i]); } g.nontrivial(n > 128); }
