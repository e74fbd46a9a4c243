// Oracle-side helpers shared by the harnesses (never used by the code under test
// except as element / operator types handed to its templates).
#pragma once
#include "pbt.hpp"
namespace hv {
using pbt::i64; using pbt::u64; using pbt::i128; using pbt::u128; using pbt::Gen;

// Non-commutative monoid: words under concatenation, represented by (hash, base^len).
struct W {
    u64 h = 0, p = 1;
    bool operator==(const W& o) const { return h == o.h && p == o.p; }
    bool operator!=(const W& o) const { return !(*this == o); }
    bool operator<(const W& o) const { return std::tie(h, p) < std::tie(o.h, o.p); }
};
inline W w_of(u64 x) { return { pbt::mix(x + 77), 0x9E3779B97F4A7C15ULL }; }
inline W w_op(W a, W b) { return { a.h * b.p + b.h, a.p * b.p }; }
inline W w_e() { return {}; }
inline std::ostream& operator<<(std::ostream& o, const W& w) { return o << w.h << "/" << w.p; }
inline W w_fold(const std::vector<W>& a, int l, int r) { W s; for (int i = l; i < r; ++i) s = w_op(s, a[i]); return s; }

// Ring Z/P, P = 998244353
constexpr u64 P = 998244353;
inline u64 pw(u64 a, u64 n, u64 m = P) { u64 r = 1 % m; a %= m; for (; n; n >>= 1, a = u64(u128(a) * a % m)) if (n & 1) r = u64(u128(r) * a % m); return r; }
struct Z {
    u64 v = 0;
    Z() {} Z(i64 x) { x %= (i64)P; if (x < 0) x += P; v = x; }
    friend Z operator+(Z a, Z b) { a.v += b.v; if (a.v >= P) a.v -= P; return a; }
    friend Z operator-(Z a, Z b) { a.v += P - b.v; if (a.v >= P) a.v -= P; return a; }
    friend Z operator*(Z a, Z b) { a.v = a.v * b.v % P; return a; }
    Z operator-() const { return Z(0) - *this; }
    Z inv() const { Z r; r.v = pw(v, P - 2); return r; }
    friend Z operator/(Z a, Z b) { return a * b.inv(); }
    Z& operator+=(Z o) { return *this = *this + o; } Z& operator-=(Z o) { return *this = *this - o; } Z& operator*=(Z o) { return *this = *this * o; } Z& operator/=(Z o) { return *this = *this / o; }
    friend bool operator==(Z a, Z b) { return a.v == b.v; } friend bool operator!=(Z a, Z b) { return a.v != b.v; } friend bool operator<(Z a, Z b) { return a.v < b.v; }
    friend std::ostream& operator<<(std::ostream& o, Z a) { return o << a.v; }
};
// affine maps x -> a x + b over Z, (f . g)(x) = f(g(x))
struct A { Z a = 1, b = 0; friend bool operator==(A x, A y) { return x.a == y.a && x.b == y.b; } friend bool operator!=(A x, A y) { return !(x == y); } friend std::ostream& operator<<(std::ostream& o, A f) { return o << f.a << "x+" << f.b; } };
inline A a_comp(A f, A g) { return { f.a * g.a, f.a * g.b + f.b }; } // f after g
inline A a_id() { return {}; }
inline Z a_app(A f, Z x) { return f.a * x + f.b; }
inline A gen_aff(Gen& g) { switch (g.raw(4)) { case 0: return A{ 1, g.range(0, 5) }; case 1: return A{ 0, g.range(0, 100) }; case 2: return A{ g.range(0, 3), g.range(0, 3) }; default: return A{ (i64)g.raw(P), (i64)g.raw(P) }; } }
// affine-summable ordered data: polynomial hash with weights so that both order
// and the action are visible: (sum of x_i * R^i, sum of R^i, R^len)
struct S { Z s = 0, c = 0, r = 1; friend bool operator==(S x, S y) { return x.s == y.s && x.c == y.c && x.r == y.r; } friend bool operator!=(S x, S y) { return !(x == y); } friend std::ostream& operator<<(std::ostream& o, S f) { return o << "{" << f.s << "," << f.c << "," << f.r << "}"; } };
inline S s_of(Z x) { S t; t.s = x; t.c = 1; t.r = 912559; return t; }
inline S s_op(S a, S b) { S t; t.s = a.s + a.r * b.s; t.c = a.c + a.r * b.c; t.r = a.r * b.r; return t; }
inline S s_e() { return {}; }
inline S s_map(A f, S x) { x.s = f.a * x.s + f.b * x.c; return x; }

// reversible version of S: fold in both directions
struct RS { S f, b; friend bool operator==(RS x, RS y) { return x.f == y.f && x.b == y.b; } friend bool operator!=(RS x, RS y) { return !(x == y); } friend std::ostream& operator<<(std::ostream& o, RS x) { return o << x.f << "|" << x.b; } };
inline RS rs_of(Z x) { return { s_of(x), s_of(x) }; }
inline RS rs_op(RS a, RS b) { return { s_op(a.f, b.f), s_op(b.b, a.b) }; }
inline RS rs_e() { return {}; }
inline RS rs_tog(RS a) { std::swap(a.f, a.b); return a; }
inline RS rs_map(A f, RS x) { return { s_map(f, x.f), s_map(f, x.b) }; }

// plain graph helpers for oracles
using Adj = std::vector<std::vector<int>>;
inline Adj adj_of(int n, const std::vector<std::pair<int, int>>& es, bool dir = false) { Adj a(n); for (auto [u, v] : es) { a[u].push_back(v); if (!dir) a[v].push_back(u); } return a; }
inline std::vector<int> bfs_dist(const Adj& a, int s) { std::vector<int> d(a.size(), -1); std::vector<int> q{ s }; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (d[v] < 0) d[v] = d[q[i]] + 1, q.push_back(v); return d; }
// parents when rooted at s (-1 for s, -2 for unreachable)
inline std::vector<int> parents(const Adj& a, int s) { std::vector<int> p(a.size(), -2); std::vector<int> q{ s }; p[s] = -1; for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (p[v] == -2) p[v] = q[i], q.push_back(v); return p; }
// vertices of the tree path u..v (empty when unreachable)
inline std::vector<int> tree_path(const Adj& a, int u, int v) { auto p = parents(a, u); std::vector<int> r; if (p[v] == -2) return r; for (int x = v; x != -1; x = p[x]) r.push_back(x); std::reverse(r.begin(), r.end()); return r; }

inline i64 add_ll(i64 a, i64 b) { return a + b; }
inline i64 zero_ll() { return 0; }
inline i64 max_ll(i64 a, i64 b) { return std::max(a, b); }
inline i64 min_ll(i64 a, i64 b) { return std::min(a, b); }
inline i64 ninf_ll() { return std::numeric_limits<i64>::min(); }
inline i64 inf_ll() { return std::numeric_limits<i64>::max(); }

template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }
template <class T> std::vector<T> uniq(std::vector<T> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
} // namespace hv
