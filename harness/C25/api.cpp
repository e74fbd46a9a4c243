#include "num.hpp"
#include <sstream>
#include "library/math/bigint.hpp"
using namespace hv;
static std::string rep(Gen& g, int n) { std::string s(n, '0'); for (auto& c : s) c = '0' + g.raw(10); if (s[0] == '0') s[0] = '1' + g.raw(9); return s; }
// divisors that are (multiples of) powers of ten, of two and of five: quotient and remainder are read off the decimal string
PBT(divide_by_powers_of_ten, 400, "divisor and quotient above 300 digits") {
    using U = suisen::unsigned_bigint; int n = g.in(1, 1500), k = g.in(0, n + 3); auto a = rep(g, n); U d(std::string("1") + std::string(k, '0')); auto [q, r] = U::divmod(U(a), d); std::string eq = k >= n ? "0" : a.substr(0, n - k), er = k >= n ? a : k == 0 ? "0" : a.substr(n - k); er.erase(0, std::min(er.find_first_not_of('0'), er.size() - 1)); g.note(n, k);
    EQ(std::string(q), eq); EQ(std::string(r), er); CK(U(a) / d == q && U(a) % d == r); g.nontrivial(k > 300 && n - k > 300);
    // a power of ten by a divisor of it: (10^(i+j)) / (2^i 5^i) = 10^j
    int j = g.in(1, 700), i = g.in(1, 700); U ten = U(std::string("1") + std::string(i + j, '0')), p2 = U(1); U b = U(std::string("1") + std::string(i, '0')); for (int t = g.in(0, 6); t--;) p2 = p2 * U(2); auto [q2, r2] = U::divmod(ten * p2, b * p2); EQ(std::string(q2), std::string("1") + std::string(j, '0')); CK(!r2); auto [q3, r3] = U::divmod(ten * p2 - U(1), b * p2); EQ(std::string(q3), std::string(j, '9')); CK(r3 + U(1) == b * p2);
}
PBT(bigint_shift_and_streams, 6000, "a negative value is shifted") {
    using I = suisen::bigint; auto s = rep(g, g.in(1, 40)); bool neg = g.coin(); std::string t = (neg ? "-" : "") + s; std::istringstream is("  " + t + " 17"); I a; is >> a; std::ostringstream os; os << a; EQ(os.str(), t); I b; is >> b; CK(b == I(17));
    auto blk = I(1) << 1; std::string unit = std::string(blk); int D = unit.size() - 1; CKM(unit == "1" + std::string(D, '0') && D > 0, "a shift is by whole blocks of decimal digits"); int k = g.in(0, 8);
    I u = a << k, w = a; w <<= k; CK(u == w); EQ(std::string(u), t + std::string(k * D, '0')); I x = a >> k, y = a; y >>= k; CK(x == y); std::string c = (int)s.size() <= k * D ? "" : s.substr(0, s.size() - k * D); EQ(std::string(x), c.empty() ? "0" : (neg ? "-" : "") + c); CK((u >> k) == a); g.nontrivial(neg && k > 0);
}
// divisors of a power of ten whose quotient is exact only beyond the first Newton steps: 10^N / (2^e 5^f) = 2^(N-e) 5^(N-f)
PBT(divide_by_smooth_divisors, 120, "divisor above 64 blocks of nine digits, quotient above 64 blocks") {
    using U = suisen::unsigned_bigint; auto powu = [](U b, int e) { U r(1); for (; e; e >>= 1, b = b * b) if (e & 1) r = r * b; return r; };
    int big = g.in(0, 4) ? g.in(1700, 3000) : g.in(1, 400), e = g.coin() ? big : g.in(0, big / 4), f = g.coin() ? g.in(0, big / 4) : 0; if (g.coin()) std::swap(e, f); int N = std::max(e, f) + (g.coin() ? g.in(0, 40) : g.in(0, 1500)); U b = powu(U(2), e) * powu(U(5), f), a(std::string("1") + std::string(N, '0')), q = powu(U(2), N - e) * powu(U(5), N - f); g.note(e, f, N);
    auto [x, y] = U::divmod(a, b); CK(x == q); CK(!y); U m(g.in(1, 999999999)); auto [x2, y2] = U::divmod(a * m, b); CK(x2 == q * m); CK(!y2); auto [x3, y3] = U::divmod(a - U(1), b); CK(x3 + U(1) == q); CK(y3 + U(1) == b); g.nontrivial(std::string(b).size() > 600 && std::string(q).size() > 600);
}
