// Very long integers, checked through random prime moduli, digit strings and division identities.
#include "large.hpp"
#include "library/math/bigint.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/number/factorial_number.hpp"
using namespace hv; using namespace suisen;
namespace {
std::string num(Bulk& b, int n, int kind) { std::string s(n, '9'); if (kind == 0) { for (auto& c : s) c = '0' + b.raw(10); } else if (kind == 1) { std::fill(s.begin(), s.end(), '0'); for (int t = 0; t < 5; ++t) s[b.raw(n)] = '0' + b.raw(10); } else if (kind == 2) for (int t = 0; t < 5; ++t) s[b.raw(n)] = '0' + b.raw(10); if (s[0] == '0') s[0] = '1'; return s; }
u64 md(const std::string& s, u64 p) { u64 r = 0; size_t i = 0; bool neg = s[0] == '-'; if (neg) i = 1; for (; i < s.size(); ++i) r = u64((u128(r) * 10 + (s[i] - '0')) % p); return neg && r ? p - r : r; }
}
PBT(bigint_100k_digits, 4, "every case: past 2^16 digits") {
    Bulk b(g); g.nontrivial(); using U = unsigned_bigint; int n = g.in(60000, 130000), m = g.pick({ 1, 9, 700, 30000, n - 1, n }); auto sa = num(b, n, g.in(0, 3)), sb = num(b, m, g.in(0, 3)); U x(sa), y(sb); EQ(std::string(x), sa); EQ(std::string(y), sb); u64 p = 1000000000000000003ULL + 0 * b.next(), p2 = 999999999999999989ULL;
    auto same = [&](const std::string& s, auto f, const char* w) { CKM(s.size() && (s == "0" || s[0] != '0') && s.find_first_not_of("0123456789") == std::string::npos, w); for (u64 q : { p, p2 }) CKM(md(s, q) == f(q), w); };
    auto pr = x * y; same(pr, [&](u64 q) { return u64(u128(md(sa, q)) * md(sb, q) % q); }, "product"); CKM(std::string(pr).size() == sa.size() + sb.size() || std::string(pr).size() == sa.size() + sb.size() - 1, "length of the product");
    same(x + y, [&](u64 q) { return (md(sa, q) + md(sb, q)) % q; }, "sum"); CKM((x + y) - y == x, "sum minus addend"); if (x >= y) same(x - y, [&](u64 q) { return (md(sa, q) + q - md(sb, q)) % q; }, "difference");
    auto q = x / y, r = x % y; CKM(r < y && q * y + r == x, "quotient and remainder"); CKM(pr / y == x && !(pr % y), "exact division"); if (x > U(1)) CKM((pr - U(1)) / y == x - U(1), "just below a multiple");
    bigint i("-" + sa), j(sb); CKM(std::string(i * j) == "-" + std::string(pr) && i / j * j + i % j == i && (i + j) - i == j && i < j && -i == bigint(sa), "signed"); EQ(std::string(i), "-" + sa);
}
PBT(factorial_number_past_2_16, 3, "every case: permutations past 2^16 elements") {
    Bulk b(g); g.nontrivial(); using F = factorial_number; int n = big_n(g, 150000); auto p = b.perm(n), q = b.perm(n); F a(p), c(q); EQ(a.to_permutation(), p); EQ(c.to_permutation(), q); EQ(a < c, p < q); auto r = p; bool nx = std::next_permutation(r.begin(), r.end()); CKM(nx == true || n < 2, "not the last"); EQ((a + 1).to_permutation(), r); CKM((a + c) - c == a, "add then subtract"); EQ((a - a + c).to_permutation(), q);
}
