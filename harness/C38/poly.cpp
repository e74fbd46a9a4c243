// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include "poly.hpp"
#include <optional>
#include <deque>
#include <map>
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/transform/chirp_z_transform.hpp"
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/subset_sum.hpp"
using namespace hv; using namespace suisen;
using MP = atcoder::modint998244353; using MB = atcoder::modint1000000007; using FP = FPS<MP>; using GP = FormalPowerSeries<MP>;
static constexpr int n0 = 1 << 10, n1 = 1 << 14;
static void setup() { FP::set_multiplication([](const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }); }
template <class M> static V<M> rnd(Bulk& b, int n) { V<M> a(n); for (auto& x : a) x = (i64)b.raw(M::mod()); return a; }
static V<MP> cv(const V<MP>& a, const V<MP>& b) { return atcoder::convolution(a, b); }
PBT(convolutions_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "arbitrary-mod and 2^64 products", o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MB>(b, n), y = rnd<MB>(b, n); std::vector<unsigned long long> p(n), q(n); for (auto& v : p) v = b.next(); for (auto& v : q) v = b.next(); return cost([&] { K << arbitrary_mod_convolution(x, y) << convolution_mod_2_64(p, q); }); });
    grows(g, "relaxed products", o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { RelaxedConvolution<MP> r(cv); RelaxedConvolutionNTT<MP> t; SemiRelaxedConvolution<MP> sr(x, cv); SemiRelaxedConvolutionNTT<MP> st(x); for (int i = 0; i < n; ++i) K << r.append(x[i], y[i]) << t.append(x[i], y[i]) << sr.append(y[i]) << st.append(y[i]); }); });
    grows(g, "bitwise products", o_nlog, n0, n1 * 2, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { K << and_convolution<MP>(x, y) << or_convolution<MP>(x, y) << xor_convolution<MP>(x, y); }); });
    grows(g, "subset product", o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { K << subset_convolution<MP>(x, y); }); });
    grows(g, "gcd, lcm and Dirichlet products", o_nlog, n0, n1 * 2, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { K << gcd_convolution<MP>(x, y) << lcm_convolution<MP>(x, y) << dirichlet_convolution<MP>(x, y, n); }); });
    grows(g, "products modulo 2^k and multivariate products", o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); std::vector<int> d(std::log2(n), 2); return cost([&] { K << multiplicative_convolution_mod_2_n(x, y); multi_variate_convolution mv(d); K << mv.convolution(x, y); }); });
    grows(g, "min-plus, convex and convex", o_n, n0, n1 * 4, [=](int n, Bulk& b) { auto c = [&] { auto d = b.vec(n, -100000, 100000); std::sort(d.begin(), d.end()); std::vector<i64> v(n); for (int i = 1; i < n; ++i) v[i] = v[i - 1] + d[i]; return v; }; auto x = c(), y = c(); return cost([&] { K << min_plus_convolution_convex_convex(x, y); }); });
    for (int kind = 0; kind < 3; ++kind) grows(g, "min-plus, convex and arbitrary, family " + std::to_string(kind), o_nlog, n0, n1 * 4, [=](int n, Bulk& b) { auto d = b.vec(n, -100000, 100000); std::sort(d.begin(), d.end()); std::vector<i64> x(n), y(n); for (int i = 1; i < n; ++i) x[i] = x[i - 1] + d[i]; for (int i = 0; i < n; ++i) y[i] = kind == 0 ? b.in(-1000000, 1000000) : kind == 1 ? 0 : -(i64)i * i; return cost([&] { K << min_plus_convolution_convex_arbitrary(x, y); }); });
    grows(g, "chirp-z transform", o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); return cost([&] { K << chirp_z_transform(x, MP(3), MP(5), n); }); });
}
template <class F> static void series(Gen& g, const std::string& nm) {
    setup();
    grows(g, "inverse, logarithm" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); x[0] = 1; F f(x); return cost([&] { K << f.inv(n) << f.log(n); }); });
    grows(g, "exponential, power, square root" + nm, o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); x[0] = 0; F f(x); x[0] = 1; F h(x); return cost([&] { K << f.exp(n) << h.pow(123456789012345LL, n) << h.safe_sqrt(n); }); });
    grows(g, "division" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, 2 * n), y = rnd<MP>(b, n); y.back() = 1; return cost([&] { K << F(x).div_mod(F(y)); }); });
    grows(g, "product of many factors" + nm, o_nlog2, n0, n1, [=](int n, Bulk& b) { std::vector<F> fs; for (int i = 0; i < n; ++i) fs.push_back(F(rnd<MP>(b, 2))); return cost([&] { K << F::prod(fs); }); });
    grows(g, "multi-point evaluation and interpolation" + nm, o_nlog2, n0, 1 << 13, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); std::vector<MP> p(n); for (int i = 0; i < n; ++i) p[i] = i * 7; return cost([&] { K << multi_point_eval(F(x), p) << polynomial_interpolation<F>(p, x) << lagrange_interpolation<F>(p, x, MP(123456)); }); });
}
template <class F> static void maps(Gen& g, const std::string& nm) {
    setup();
    grows(g, "Taylor shift" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); return cost([&] { K << translate(F(x), MP(5)); }); });
    grows(g, "Newton basis" + nm, o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), p = rnd<MP>(b, n); return cost([&] { K << convert_to_newton_basis(F(x), p); }); });
    grows(g, "f(e^x), product of f(r^k x), subset counts" + nm, o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); std::vector<int> it(n); for (auto& v : it) v = b.in(1, n); return cost([&] { K << compose_exp(F(x), n) << prod_f_rk_x(F(x), MP(3), n, n) << subset_sum<F>(n, it); }); });
    grows(g, "polynomial gcd" + nm, o_nlog2, 1 << 9, 1 << 12, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { K << polynomial_ext_gcd(F(x), F(y)); }); }, 3);
    grows(g, "term of a linear recurrence" + nm, o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n), y = rnd<MP>(b, n); return cost([&] { K << nth_term_of_linearly_recurrent_sequence(F(x), F(y), u64(1) << 40); }); });
}
PBT(series_cost, 1, "every case: cost at two sizes compared") { series<FP>(g, " (FPS)"); }
PBT(ntt_series_cost, 1, "every case: cost at two sizes compared") { series<GP>(g, " (FormalPowerSeries)"); }
PBT(polynomial_maps_cost, 1, "every case: cost at two sizes compared") { maps<FP>(g, " (FPS)"); }
PBT(ntt_polynomial_maps_cost, 1, "every case: cost at two sizes compared") { maps<GP>(g, " (FormalPowerSeries)"); }
PBT(recurrence_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "sampling-point shift", o_nlog, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); return cost([&] { K << suisen::shift_of_sampling_points(x, MP(123456), n); }); });
    grows(g, "shortest recurrence", o_n2, 1 << 9, 1 << 12, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); return cost([&] { K << find_linear_recuurence(x); }); });
    grows(g, "relaxed inverse, exponential, logarithm, power, root", o_nlog2, n0, n1, [=](int n, Bulk& b) { auto x = rnd<MP>(b, n); return cost([&] { RelaxedInv<MP> ri; RelaxedExp<MP> re; RelaxedLog<MP> rl; RelaxedPow<MP> rp(1000000007); RelaxedSqrt<MP> rs; for (int i = 0; i < n; ++i) K << ri.append(i ? x[i] : MP(1)) << re.append(i ? x[i] : MP(0)) << rl.append(i ? x[i] : MP(1)) << rp.append(i ? x[i] : MP(1)) << rs.append(i ? x[i] : MP(1)); }); });
}
