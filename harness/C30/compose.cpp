#include "poly.hpp"
#include <optional>
#include <algorithm>
#include <deque>
#include <cmath>
#include <numeric>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/compose.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/compose_inv.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using FP = FPS<MP>; using GP = FormalPowerSeries<MP>;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); }
template <class F> static V<typename F::value_type> v(const F& f) { return V<typename F::value_type>(f.begin(), f.end()); }
#define EACH(fn) do { setup(); if (g.coin()) fn<FP>(g); else fn<GP>(g); } while (0)
static V<MP> comp(const V<MP>& f, const V<MP>& h, int n) { V<MP> r(n); auto x = pfit(h, n); for (size_t i = f.size(); i-- > 0;) { r = pmul(r, x, n); if (n) r[0] += f[i]; } return r; }
PBT(compose, 800, "at least 10 coefficients on both sides") { int nf = g.chance(1, 3) ? g.in(0, 60) : g.in(0, 14), ng = g.chance(1, 3) ? g.in(0, 70) : g.in(0, 14), n = g.chance(1, 3) ? g.in(0, 40) : g.in(0, 10); auto f = gpoly<MP>(g, nf), h = gpoly<MP>(g, ng); g.note("sizes ", nf, " ", ng, " n ", n); auto r = suisen::compose(f, h, n); EQ((int)r.size(), n); CKM(r == comp(f, h, n), "f(g(x)) modulo x^n"); g.nontrivial(nf >= 10 && ng >= 10 && n >= 8); }
PBT(compositional_inverse, 500, "at least 8 coefficients") { int m = g.chance(1, 3) ? g.in(2, 60) : g.in(2, 10), n = g.chance(1, 3) ? g.in(0, 60) : g.in(0, 12); auto f = gpoly<MP>(g, m); f[0] = 0; f[1] = (i64)g.raw(P - 1) + 1; g.note("size ", m, " n ", n); auto r = compositional_inv(f, n); EQ((int)r.size(), n); V<MP> id(n); if (n > 1) id[1] = 1; CKM(comp(f, r, n) == id, "f(g) = x"); CKM(comp(r, pfit(f, n), n) == id, "g(f) = x"); g.nontrivial(n >= 8 && m >= 4); }
template <class F> static void cexp(Gen& g) { int d = g.in(0, 20), n = g.chance(1, 4) ? g.in(60, 80) : g.in(1, 20); auto f = gpoly<MP>(g, d); auto r = v(compose_exp(F(f), n)); V<MP> w(n); for (int i = 0; i < d; ++i) { MP t = f[i]; for (int j = 0; j < n; ++j) { w[j] += t; t *= MP(i) / MP(j + 1); } } g.note("d ", d, " n ", n); CKM(r == w, "f(e^x)"); g.nontrivial(d >= 4 && n >= 4); }
PBT(compose_exp, 600, "at least 4 coefficients") { EACH(cexp); }
template <class F> static void prodf(Gen& g) { int n = plen(g, 1, 90), sz = g.chance(1, 3) ? -1 : plen(g, 1, 90), N = sz < 0 ? n : sz; auto f = gpoly<MP>(g, n); int z = g.chance(1, 3) ? g.in(0, std::min(n, 4)) : 0; for (int i = 0; i < z; ++i) f[i] = 0; int m = g.chance(1, 4) ? (int)g.raw(1000000000) : g.in(0, 9); MP r; switch (g.raw(5)) { case 0: r = g.in(0, 2); break; case 1: r = MP(-1); break; case 2: r = MP(3).pow((P - 1) / (1 << g.in(0, 8))); break; default: r = (i64)g.raw(P); } g.note("n ", n, " size ", sz, " m ", m, " r ", r.val(), " z ", z);
    // doubling: p_{2t}(x) = p_t(x) p_t(r^t x)
    V<MP> w = pfit(V<MP>{ 1 }, N), cur = pfit(f, N); MP rc = r; MP shift = 1; auto sub = [&](V<MP> p, MP q) { MP e = 1; for (auto& x : p) x *= e, e *= q; return p; }; for (int t = m; t; t >>= 1) { if (t & 1) { w = pmul(w, sub(cur, shift), N); shift *= rc; } cur = pmul(cur, sub(cur, rc), N); rc *= rc; }
    auto res = v(suisen::prod_f_rk_x(F(f), r, m, sz)); EQ((int)res.size(), N); CKM(res == w, "product of f(r^k x)"); g.nontrivial(n >= 8 && m >= 3 && N >= 8); }
PBT(prod_of_scaled_copies, 1500, "at least 8 coefficients and 3 factors") { EACH(prodf); }
template <class F> static void rook(Gen& g) { int n = g.len(0, 7); std::vector<int> h(n); for (auto& x : h) x = g.in(0, 7); auto count = [&](const std::vector<int>& cells_h, int H) { /* a gap in a row separates rooks: the row is freed once a column is too low for it */ std::vector<MP> r(n + 1); std::map<int, std::vector<MP>> dp; dp[0] = std::vector<MP>(n + 1); dp[0][0] = 1; for (int i = 0; i < n; ++i) { std::map<int, std::vector<MP>> nd; auto at = [&](int S) -> std::vector<MP>& { auto& x = nd[S]; x.resize(n + 1); return x; }; for (auto& [S0, f] : dp) { int S = S0 & ((1 << cells_h[i]) - 1); for (int k = 0; k <= n; ++k) at(S)[k] += f[k]; for (int y = 0; y < cells_h[i]; ++y) if (!(S >> y & 1)) for (int k = 0; k < n; ++k) at(S | 1 << y)[k + 1] += f[k]; } dp.swap(nd); } (void)H; for (auto& [S, f] : dp) for (int k = 0; k <= n; ++k) r[k] += f[k]; return r; }; g.note(h); if (n) CKM(peq(v(rook_polynomial_skyline_board<F>(h)), count(h, 7)), "skyline board"); std::sort(h.begin(), h.end()); CKM(peq(v(rook_polynomial_ferrers_board<F>(h)), count(h, 7)), "Ferrers board"); g.nontrivial(n >= 3); }
PBT(rook_polynomials, 2500, "at least 3 columns", 8, 60) { EACH(rook); }
template <class F> static void ssum(Gen& g) { int n = g.chance(1, 4) ? g.in(59, 120) : g.in(0, 30), m = g.in(0, 30); std::vector<int> it(m); for (auto& x : it) x = g.chance(1, 10) ? g.in(0, 1) : g.in(0, n + 5); if (g.chance(1, 6)) { int x = g.coin() ? 0 : g.in(0, n + 1), c = g.in(60, 300); for (int i = 0; i < c; ++i) it.push_back(x); g.shuffle(it); } V<MP> w(n + 1); w[0] = 1; for (int x : it) for (int s = n; s >= x; --s) if (x == 0) w[s] *= 2; else w[s] += w[s - x]; g.note("n ", n, " ", it); CKM(V<MP>(subset_sum<F>(n, it)) == w, "subset counts"); g.nontrivial(m >= 3 && n >= 5); }
PBT(subset_sums, 2500, "at least 3 items") { EACH(ssum); }
using VS = VecSparseFPS<long long, MP>;
static VS gvs(Gen& g, std::map<i64, MP>& m, i64 hi) { int t = g.in(0, 8); std::vector<std::pair<long long, MP>> d; i64 last = 0; for (int i = 0; i < t; ++i) { i64 p = g.coin() ? last + g.in(0, 2) : (i64)g.raw(hi); MP x = (i64)g.raw(P); d.emplace_back(p, x); m[p] += x; last = p; } bool s = g.coin(); if (s) std::stable_sort(d.begin(), d.end(), [](auto& a, auto& b) { return a.first < b.first; }); return VS(d, s); }
PBT(vec_sparse, 4000, "at least two blocks in both operands") { VS::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); std::map<i64, MP> ma, mb; i64 hi = g.coin() ? 30 : 1000000000000000LL; VS a = gvs(g, ma, hi), b = gvs(g, mb, hi); auto same = [&](VS x, std::map<i64, MP> m, const char* w) { for (auto& [i, y] : m) CKM(x[i] == y, w); for (int t = 0; t < 4; ++t) { i64 i = m.empty() ? g.in(0, 9) : std::next(m.begin(), g.raw(m.size()))->first + g.in(-2, 2); if (i >= 0) CKM(x[i] == (m.count(i) ? m[i] : MP(0)), w); } std::map<i64, MP> tot; i64 prev = -1; for (auto& [i, f] : x) { CKM(i > prev, "blocks are ordered and disjoint"); for (size_t k = 0; k < f.size(); ++k) if (f[k].val()) tot[i + k] += f[k]; prev = i + (i64)f.size() - 1; } for (auto it = m.begin(); it != m.end();) it = it->second.val() ? std::next(it) : m.erase(it); CKM(tot == m, w); };
    same(a, ma, "construction"); { auto m = ma; for (auto& [i, x] : mb) m[i] += x; same(a + b, m, "sum"); same(b + a, m, "sum (commuted)"); } { auto m = ma; for (auto& [i, x] : mb) m[i] -= x; same(a - b, m, "difference"); } { auto m = ma; for (auto& [i, x] : m) x = -x; same(-a, m, "negation"); } { std::map<i64, MP> m; for (auto& [i, x] : ma) for (auto& [j, y] : mb) m[i + j] += x * y; same(a * b, m, "product"); } auto q = gpoly<MP>(g, g.in(1, 6)); { std::map<i64, MP> m; for (auto& [i, x] : ma) for (size_t j = 0; j < q.size(); ++j) m[i + j] += x * q[j]; same(a * q, m, "product with a dense polynomial"); same(q * a, m, "product with a dense polynomial (left)"); }
    { auto Q = gpoly<MP>(g, g.in(1, 5)); Q[0] = g.coin() ? MP(1) : MP((i64)g.raw(P - 1) + 1); i64 n = (i64)g.raw(60); if (hi > 30) n = ma.empty() ? 5 : std::next(ma.begin(), g.raw(ma.size()))->first + g.in(0, 40); MP w = 0; for (auto& [i, x] : ma) if (i <= n && n - i <= 200) w += x * pinv(Q, n - i + 1)[n - i]; bool far = false; for (auto& [i, x] : ma) far |= n - i > 200 && x.val(); if (!far) CKM(VS::bostan_mori(a, Q, n) == w, "[x^n] P/Q"); } VS c = a; c.clear(); same(c, {}, "clear"); g.nontrivial(std::distance(a.begin(), a.end()) >= 2 && std::distance(b.begin(), b.end()) >= 2); }
