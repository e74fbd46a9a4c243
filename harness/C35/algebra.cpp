#include "common.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include <sstream>
#include <tuple>
#include <unordered_set>
#include <set>
using namespace hv; using namespace suisen; using std::vector;
namespace {
// nim product from its definition (mex) for small values
int nimtab(int a, int b) { static vector<vector<int>> t; if (t.empty()) { const int N = 32; t.assign(N, vector<int>(N, 0)); for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { std::set<int> s; for (int x = 0; x < i; ++x) for (int y = 0; y < j; ++y) s.insert(t[x][j] ^ t[i][y] ^ t[x][y]); int m = 0; while (s.count(m)) ++m; t[i][j] = t[j][i] = m; } } return t[a][b]; }
// nim product of Fermat 2-powers by the textbook rules, generic recursion on single bits
u64 bitprod(int i, int j) { // 2^i (x) 2^j
    if (i == 0 || j == 0) return (u64)1 << (i + j);
    static vector<vector<u64>> memo(64, vector<u64>(64, 0)); if (memo[i][j]) return memo[i][j];
    // split off the highest Fermat power used
    auto mul = [&](u64 a, u64 b) { u64 r = 0; for (int x = 0; x < 64; ++x) if (a >> x & 1) for (int y = 0; y < 64; ++y) if (b >> y & 1) r ^= bitprod(x, y); return r; };
    int k = 5; while (!((i >> k & 1) || (j >> k & 1))) --k; int f = 1 << k; u64 r;
    if ((i & f) && (j & f)) { u64 p = bitprod(i ^ f, j ^ f); u64 F = (u64)1 << f; u64 half = F >> 1; r = mul(p, half) ^ (p << f); /* F*F = F ^ F/2, p < F */ }
    else { u64 p = bitprod(i & ~f, j & ~f); r = p << f; }
    return memo[i][j] = r;
}
u64 nimref(u64 a, u64 b) { u64 r = 0; for (int x = 0; x < 64; ++x) if (a >> x & 1) for (int y = 0; y < 64; ++y) if (b >> y & 1) r ^= bitprod(x, y); return r; }
template <int SZ> void field(Gen& g) {
    using N = internal::nimber::nimber<SZ>; u64 msk = SZ == 64 ? ~0ULL : (1ULL << SZ) - 1; auto v = [&] { u64 x = g.u64any(); int s = 1 << g.in(0, 6); if (s < 64) x &= (1ULL << s) - 1; return x & msk; }; u64 x = v(), y = v(), z = v(); if (g.chance(1, 4)) x = (1ULL << g.in(0, SZ - 1)), y = (1ULL << g.in(0, SZ - 1)); g.note(SZ, x, y, z); N a = x, b = y, c = z;
    EQ((a * b).val(), nimref(x, y)); EQ((a + b).val(), x ^ y); EQ((a - b).val(), x ^ y); EQ((-a).val(), x); EQ((+a).val(), x); CKM(a * b == b * a && (a * b) * c == a * (b * c) && a * (b + c) == a * b + a * c && a * N::one() == a && a * N::zero() == N::zero(), "field laws");
    if (y) { N i = b.inv(); CKM(b * i == N(1), "inverse"); CKM((i.val() & ~msk) == 0, "inverse stays in the field"); CKM((a / b) * b == a, "division"); N t = a; t /= b; CKM(t == a / b, "/="); }
    { N t = a; t *= b; CKM(t == a * b, "*="); t = a; t += b; CKM(t == a + b, "+="); t = a; t -= b; CKM(t == a - b, "-="); t = a; t *= t; CKM(t == a * a, "aliased *="); }
    u64 e = g.edgy(0, 1000); { N w = 1; for (u64 q = 0; q < e; ++q) w *= a; CKM(a.pow(e) == w, "pow"); } CKM(a.pow(msk) == (x ? N(1) : N(0)), "group order"); CKM(a.pow(~0ULL) == a.pow(~0ULL >> 1) * a.pow(1ULL << 63), "pow with a 64-bit exponent");
    CKM((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && bool(a) == (x != 0) && uint64_t(a) == x, "comparisons and conversions"); { std::stringstream ss; ss << a << ' ' << b; N p, q; ss >> p >> q; CKM(p == a && q == b, "stream round trip"); } CKM(std::hash<N>()(a) == std::hash<N>()(N(x)), "hash"); std::unordered_set<N> us{ a, b, c, a }; CKM(us.size() == std::set<u64>({ x, y, z }).size(), "unordered_set");
}
}
PBT(nimber_64, 4000, "always") { field<64>(g); g.nontrivial(true); }
PBT(nimber_small, 6000, "always") { switch (g.in(0, 5)) { case 0: field<1>(g); break; case 1: field<2>(g); break; case 2: field<4>(g); break; case 3: field<8>(g); break; case 4: field<16>(g); break; default: field<32>(g); } g.nontrivial(true); }
PBT(nimber_mex, 400, "both factors above 1") { int a = g.in(0, 31), b = g.in(0, 31); g.note(a, b); EQ((nimber(a) * nimber(b)).val(), (u64)nimtab(a, b)); if (a < 16 && b < 16) EQ((nimber4_t(a) * nimber4_t(b)).val(), (u64)nimtab(a, b)); g.nontrivial(a > 1 && b > 1); }

PBT(affine, 8000, "both slopes non-zero") {
    using A = Affine<i64>; i64 R = 1000; auto v = [&] { return g.edgy(-R, R); }; A f(v(), v()), h(v(), v()); i64 x = v(), c = v(); g.note(f.a, f.b, h.a, h.b, x, c);
    EQ(f(x), f.a * x + f.b); EQ(f.affine(x), f.a * x + f.b); EQ((i64)f.affine<__int128_t>(x), f.a * x + f.b); EQ(f.compose(h)(x), f(h(x))); EQ(A::compose(f, h)(x), f(h(x))); EQ(A::id()(x), x); EQ(A()(x), x); CKM(A::compose(f, A::id()) == f && A::compose(A::id(), f) == f, "identity"); EQ((f + h)(x), f(x) + h(x)); EQ((f - h)(x), f(x) - h(x)); EQ((f + c)(x), f(x) + c); EQ((f - c)(x), f(x) - c); EQ((-f)(x), -f(x)); EQ((+f)(x), f(x)); { A t = f; A o = t++; CKM(o == f && t(x) == f(x) + 1, "x++"); o = t--; CKM(t == f && o(x) == f(x) + 1, "x--"); CKM((++t)(x) == f(x) + 1 && t(x) == f(x) + 1, "++x"); CKM((--t)(x) == f(x) && t == f, "--x"); t += c; t -= c; CKM(t == f, "+= -="); t += h; t -= h; CKM(t == f, "+= -= function"); }
    auto pf = std::make_pair(f.a, f.b), ph = std::make_pair(h.a, h.b); CKM((f == h) == (pf == ph) && (f != h) == (pf != ph) && (f < h) == (pf < ph) && (f <= h) == (pf <= ph) && (f > h) == (pf > ph) && (f >= h) == (pf >= ph), "order"); std::pair<i64, i64> pp = f; CKM(pp == pf, "pair"); std::tuple<i64, i64> tp = f; CKM(tp == std::make_tuple(f.a, f.b), "tuple"); { std::stringstream ss; ss << f << ' ' << h; A p, q; ss >> p >> q; CKM(p == f && q == h, "stream round trip"); } g.nontrivial(f.a && h.a);
}
PBT(affine_clamp, 8000, "clamps bind") {
    using A = AffineClamp<i64>; auto v = [&](i64 R) { return g.edgy(-R, R); }; int k = g.in(1, 5); vector<A> fs; i64 x = v(1000); vector<std::array<i64, 4>> raw; for (int i = 0; i < k; ++i) { i64 a = g.in(-3, 3), b = v(1000), l = v(3000), r = v(3000); if (l > r) std::swap(l, r); int q = g.in(0, 3); if (q == 1) l = A::neg_inf; if (q == 2) r = A::pos_inf; if (q == 3 && g.coin()) l = A::neg_inf, r = A::pos_inf; raw.push_back({ a, b, l, r }); fs.push_back(g.coin() ? A(a, b, l, r) : A(Affine<i64>(a, b), l, r)); } g.note(raw, x);
    auto ap = [&](std::array<i64, 4> f, i64 t) { return std::clamp(f[0] * t + f[1], f[2], f[3]); }; bool bind = false; A acc = A::id(); i64 e = x; for (int i = 0; i < k; ++i) { i64 un = raw[i][0] * e + raw[i][1]; e = ap(raw[i], e); bind |= un != e; EQ(fs[i](x), ap(raw[i], x)); acc = g.coin() ? A::compose(fs[i], acc) : fs[i].compose(acc); EQ(acc(x), e); CKM(acc.l <= acc.r, "ordered clamp"); for (int t = 0; t < 3; ++t) { i64 y = v(1000), w = y; for (int j = 0; j <= i; ++j) w = ap(raw[j], w); EQ(acc(y), w); } }
    { std::tuple<i64, i64, i64, i64> t = fs[0]; CKM(t == std::make_tuple(raw[0][0], raw[0][1], raw[0][2], raw[0][3]), "tuple"); std::stringstream ss; ss << fs[0]; A q; ss >> q; CKM(q.a == raw[0][0] && q.b == raw[0][1] && q.l == raw[0][2] && q.r == raw[0][3], "stream round trip"); } g.nontrivial(bind);
}
