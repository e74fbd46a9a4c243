// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include <optional>
#include <map>
#include <atcoder/modint>
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/util.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
#include "library/number/ext_gcd.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/number/factorial_number.hpp"
#include "library/math/bigint.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace hv; using namespace suisen; using MP = atcoder::modint998244353;
static double o_p23(double n) { return std::pow(n, 2 / 3.) * std::log2(n); } static double o_p12(double n) { return std::sqrt(n) * std::log2(n); } static double o_p14(double n) { return std::pow(n, 0.25); }
PBT(tables_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "linear sieve and totient table", o_nlog, 1 << 12, 1 << 17, [=](int n, Bulk&) { return cost([&] { LinearSieve s(n); K << s << totient_table(n) << divisors_table(n); }); });
}
// sizes are exponents of two: a bound f(2^k)
template <class F> static void grows2(Gen& g, const char* w, double (*f)(double), int k, int k2, F&& run, double slack = 2) { static double (*ff)(double); ff = f; grows(g, w, +[](double k) { return ff(std::exp2(k)); }, k, k2, run, slack); }
PBT(sublinear_cost, 2, "every case: cost at two sizes compared") {
    grows2(g, "quotients", o_sqrt, 20, 36, [=](int k, Bulk& b) { i64 n = (1LL << k) + b.raw(1LL << (k - 4)); return cost([&] { K << enumerate_quotients<i64>(n); }); });
    grows2(g, "square-free count", o_sqrt, 24, 40, [=](int k, Bulk& b) { i64 n = (1LL << k) + b.raw(1LL << (k - 4)); return cost([&] { K << count_square_free(n); }); });
    grows2(g, "totient sums", o_p23, 20, 34, [=](int k, Bulk& b) { i64 n = (1LL << k) + b.raw(1LL << (k - 4)); return cost([&] { SumOfTotientFunction<MP> t(n); K << t(n); }); }, 1.6);
    grows2(g, "Mobius sums", o_p23, 20, 34, [=](int k, Bulk& b) { i64 n = (1LL << k) + b.raw(1LL << (k - 4)); return cost([&] { SumOfMobiusFunction<i64> m(n); K << m(n); }); }, 1.6);
    grows2(g, "tetration", o_log2, 16, 30, [=](int k, Bulk& b) { return cost([&] { for (int t = 0; t < 20; ++t) K << tetration_mod(b.in(2, 1000000000), 10, (1 << k) + b.raw(1 << (k - 4))); }); });
}
PBT(modular_cost, 2, "every case: cost at two sizes compared") {
    grows2(g, "discrete logarithm", o_p12, 16, 30, [=](int k, Bulk& b) { double c = 0; for (int t = 0; t < 6; ++t) { u64 p = (1ULL << k) + b.raw(1 << (k - 4)); while (!miller_rabin::is_prime(p)) ++p; using M = atcoder::dynamic_modint<38>; M::set_mod(p); c += cost([&] { K << discrete_logarithm(M(b.raw(p - 2) + 2), M(b.raw(p))); }); } return c; }, 4);
    grows2(g, "factorisation", o_p14, 30, 60, [=](int k, Bulk& b) { double c = 0; for (int t = 0; t < 30; ++t) { auto pr = [&](int k) { u64 p = (1ULL << k) + b.raw(1ULL << (k - 2)); while (!miller_rabin::is_prime(p)) ++p; return p; }; u64 n = pr(k / 2) * pr(k / 2); c += cost([&] { K << fast_factorize::factorize<u64>(n); }); } return c; }, 4);
    grows2(g, "gcd, modular minimum, Stern-Brocot path, square root", o_log, 15, 30, [=](int k, Bulk& b) { double c = 0; for (int t = 0; t < 200; ++t) { i64 x = (1LL << k) + b.raw(1LL << (k - 1)), y = b.raw(x) + 1; u64 p = x; while (!miller_rabin::is_prime(p)) ++p; c += cost([&] { K << ext_gcd(x, y) << min_of_mod_of_linear(int(x / 2), int(x), int(y % x), int(y / 2)) << miller_rabin::is_prime(p); }); } return c; }, 3);
}
PBT(long_integers_cost, 2, "every case: cost at two sizes compared") {
    auto num = [](Bulk& b, int n) { std::string s(n, '1'); for (auto& c : s) c = '1' + b.raw(9); return s; };
    grows(g, "reading, printing, adding long integers", o_n, 1 << 12, 1 << 16, [=](int n, Bulk& b) { auto s = num(b, n), t = num(b, n); return cost([&] { bigint x(s), y(t); K << std::string(x + y) << std::string(x - y) << (x < y); }); });
    grows(g, "multiplying long integers", o_nlog, 1 << 12, 1 << 16, [=](int n, Bulk& b) { unsigned_bigint x(num(b, n)), y(num(b, n)); return cost([&] { K << x * y; }); });
    grows(g, "dividing long integers", o_nlog2, 1 << 12, 1 << 16, [=](int n, Bulk& b) { unsigned_bigint x(num(b, 2 * n)), y(num(b, n)); return cost([&] { K << x / y; }); });
    grows(g, "permutation ranks", o_nlog, 1 << 11, 1 << 16, [=](int n, Bulk& b) { auto p = b.perm(n), q = b.perm(n); return cost([&] { factorial_number x(p), y(q); K << (x + y).to_permutation(); }); });
}
PBT(linear_algebra_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "matrix product, determinant, elimination", o_n3, 32, 128, [=](int n, Bulk& b) { Matrix<MP> A(n), B(n); std::vector<std::vector<MP>> a(n, std::vector<MP>(n)); std::vector<MP> y(n); for (int i = 0; i < n; ++i) { y[i] = b.in(0, 1000000); for (int j = 0; j < n; ++j) a[i][j] = A[i][j] = b.in(0, 100000000), B[i][j] = b.in(0, 100000000); } return cost([&] { K << A * B << A.det(); GaussianEliminationArithmetic<MP> s(a, y); K << s.dimension(); K << characteristic_polynomial(A); }); });
    grows(g, "xor basis", o_n, 1 << 11, 1 << 16, [=](int n, Bulk& b) { return cost([&] { XorBase<u64> x; for (int i = 0; i < n; ++i) x.add(b.next()), K << x; }); });
}
