#include "common.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using namespace hv;
using B = std::vector<bool>;
static bool lessb(const B& a, const B& b) { for (int i = a.size(); i-- > 0;) if (a[i] != b[i]) return b[i]; return false; }
static B shl(const B& a, int k) { B r(a.size()); for (int i = k; i < (int)a.size(); ++i) r[i] = a[i - k]; return r; }
static B shr(const B& a, int k) { B r(a.size()); for (int i = 0; i + k < (int)a.size(); ++i) r[i] = a[i + k]; return r; }
static int szg(Gen& g) { switch (g.raw(4)) { case 0: return g.raw(5); case 1: return 62 + g.raw(5); case 2: return 126 + g.raw(5); default: return g.raw(260); } }
static void same(const suisen::DynamicBitSet& t, const B& a) {
    EQ(t.size(), (int)a.size()); EQ(t.empty(), a.empty()); int c = 0; for (int i = 0; i < (int)a.size(); ++i) { EQ(bool(t[i]), bool(a[i])); c += a[i]; }
    EQ(t.count(), c); EQ(t.any(), c > 0); EQ(t.none(), c == 0); EQ(t.all(), c == (int)a.size()); EQ(bool(t), c > 0);
    int f = 0; while (f < (int)a.size() && !a[f]) ++f; EQ(t.find_first(), f);
}
PBT(dynamic_bitset, 12000, "sizes cross a 64-bit block and at least one whole-set operation was applied", 8, 12) {
    using T = suisen::DynamicBitSet; int n = szg(g); bool fv = g.coin(); T t(n, fv), u(n, g.coin()); B a(n, fv), b(n, u.size() ? bool(u[0]) : false); g.note("n", n, " fill ", fv); same(t, a); bool whole = false;
    for (int q = g.size(1, 30); q--;) {
        n = a.size(); auto [l, r] = g.seg(n); int op = g.raw(22); g.note("op", op, " ", l, " ", r);
        switch (op) {
        case 0: t.range_set(l, r); for (int i = l; i < r; ++i) a[i] = 1; break;
        case 1: t.range_reset(l, r); for (int i = l; i < r; ++i) a[i] = 0; break;
        case 2: t.range_flip(l, r); for (int i = l; i < r; ++i) a[i] = !a[i]; break;
        case 3: { bool v = g.coin(); t.range_update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; } break;
        case 4: t.set(); a.assign(n, 1); whole = true; break;
        case 5: t.reset(); a.assign(n, 0); break;
        case 6: { int m = g.coin() ? szg(g) : std::max<int>(0, n + g.range(-5, 5)); bool v = g.coin(); g.note(" resize ", m, v); t.resize(m, v); u.resize(m, v); a.resize(m, v); b.resize(m, v); } break;
        case 7: { bool v = g.coin(); t.push_back(v); a.push_back(v); u.push_back(!v); b.push_back(!v); } break;
        case 8: if (n) { t.pop_back(); a.pop_back(); u.pop_back(); b.pop_back(); } break;
        case 9: t &= u; for (int i = 0; i < n; ++i) a[i] = a[i] & b[i]; break;
        case 10: t |= u; for (int i = 0; i < n; ++i) a[i] = a[i] | b[i]; break;
        case 11: t ^= u; for (int i = 0; i < n; ++i) a[i] = a[i] ^ b[i]; break;
        case 12: { int k = g.coin() ? g.raw(n + 3) : g.pick<int>({ 0, 1, 63, 64, 65, 128 }); g.note(" shl ", k); if (g.coin()) t <<= k; else t = t << k; a = shl(a, k); whole = true; } break;
        case 13: { int k = g.coin() ? g.raw(n + 3) : g.pick<int>({ 0, 1, 63, 64, 65, 128 }); g.note(" shr ", k); if (g.coin()) t >>= k; else t = t >> k; a = shr(a, k); whole = true; } break;
        case 14: t = ~t; a.flip(); whole = true; break;
        case 15: std::swap(t, u); std::swap(a, b); break;
        case 16: if (n) { int i = g.raw(n), k = g.raw(8); bool v = g.coin(); g.note(" bit ", i, " ", k, v); switch (k) { case 0: t[i] = v; a[i] = v; break; case 1: t[i] &= v; a[i] = a[i] & v; break; case 2: t[i] |= v; a[i] = a[i] | v; break; case 3: t[i] ^= v; a[i] = a[i] ^ v; break; case 4: t[i].set(); a[i] = 1; break; case 5: t[i].reset(); a[i] = 0; break; case 6: t[i].flip(); a[i] = !a[i]; break; default: t[i] = u[i]; a[i] = bool(b[i]); } CK(t[i].test() == a[i]); } break;
        case 17: same(t & u, [&] { B c(n); for (int i = 0; i < n; ++i) c[i] = a[i] && b[i]; return c; }()); same(t | u, [&] { B c(n); for (int i = 0; i < n; ++i) c[i] = a[i] || b[i]; return c; }()); same(t ^ u, [&] { B c(n); for (int i = 0; i < n; ++i) c[i] = a[i] != b[i]; return c; }()); break;
        case 18: u = t; b = a; if (n && g.coin()) { int i = g.raw(n); u[i] = !b[i]; b[i] = !b[i]; } break;
        default: { int c = 0; for (int i = l; i < r; ++i) c += a[i]; EQ(t.range_count(l, r), c); if (n) { int p = int(g.raw(n + 1)) - 1, f = p + 1; while (f < n && !a[f]) ++f; EQ(t.find_next(p), f); } }
        }
        n = a.size(); same(t, a); same(u, b); if (n > 64 && whole) g.nontrivial();
        CK((t == u) == (a == b)); CK((t != u) == (a != b)); CK((t < u) == lessb(a, b)); CK((t > u) == lessb(b, a)); CK((t <= u) == !lessb(b, a)); CK((t >= u) == !lessb(a, b));
        bool is = false; for (int i = 0; i < n; ++i) is |= a[i] && b[i]; EQ(t.has_intersection(u), is); EQ(u.is_disjoint(t), !is);
        if (op == 20) { int m = szg(g); T v(m, true); bool x = false; for (int i = 0; i < std::min(n, m); ++i) x |= a[i]; EQ(t.has_intersection(v), x); EQ(v.has_intersection(t), x); }
    }
}
template <size_t N> static void stat(Gen& g) {
    using T = suisen::static_bitset<N>; const int n = N; T t, u; B a(n), b(n);
    if (g.coin()) { for (int i = 0; i < n; ++i) if (g.coin()) t.set(i), a[i] = 1; }
    for (int q = g.size(1, 30); q--;) {
        auto [l, r] = g.seg(n); int op = g.raw(15); g.note("op", op, " ", l, " ", r); int i = g.raw(n);
        switch (op) {
        case 0: t.range_set(l, r); for (int i = l; i < r; ++i) a[i] = 1; break;
        case 1: t.range_set(l, r, false); for (int i = l; i < r; ++i) a[i] = 0; break;
        case 2: t.set(i); a[i] = 1; break; case 3: t.set(i, false); a[i] = 0; break; case 4: t.flip(i); a[i] = !a[i]; break; case 5: t.clear(); a.assign(n, 0); break;
        case 6: t &= u; for (int i = 0; i < n; ++i) a[i] = a[i] & b[i]; break; case 7: t |= u; for (int i = 0; i < n; ++i) a[i] = a[i] | b[i]; break; case 8: t ^= u; for (int i = 0; i < n; ++i) a[i] = a[i] ^ b[i]; break;
        case 9: { int k = g.coin() ? g.raw(n + 3) : g.pick<int>({ 0, 1, 63, 64, 65, 128 }); g.note(" shl ", k); if (g.coin()) t <<= k; else t = t << k; a = shl(a, k); g.nontrivial(); } break;
        case 10: { int k = g.coin() ? g.raw(n + 3) : g.pick<int>({ 0, 1, 63, 64, 65, 128 }); g.note(" shr ", k); if (g.coin()) t >>= k; else t = t >> k; a = shr(a, k); g.nontrivial(); } break;
        case 11: t = ~t; a.flip(); g.nontrivial(); break;
        case 12: std::swap(t, u); std::swap(a, b); break;
        case 13: u = t; b = a; if (g.coin()) { u.flip(i); b[i] = !b[i]; } break;
        default: { T x = t & u, y = t | u, z = t ^ u; for (int i = 0; i < n; ++i) { CK(x[i] == (a[i] && b[i])); CK(y[i] == (a[i] || b[i])); CK(z[i] == (a[i] != b[i])); } }
        }
        int c = 0; for (int i = 0; i < n; ++i) { CKM(t[i] == a[i], "bit " + std::to_string(i)); c += a[i]; } EQ(bool(t), c > 0);
        CK((t == u) == (a == b)); CK((t != u) == (a != b)); CK((t < u) == lessb(a, b)); CK((t > u) == lessb(b, a)); CK((t <= u) == !lessb(b, a)); CK((t >= u) == !lessb(a, b));
        for (int i = 0; i < n; ++i) CK(((t.data()[i >> 6] >> (i & 63)) & 1) == a[i]);
        T v(t.data()); CK(v == t);
        std::ostringstream o; o << t; std::string s; for (int i = n; i-- > 0;) s += char('0' + a[i]); EQ(o.str(), s);
    }
}
PBT(static_bitset, 12000, "a shift or a complement was applied", 8, 26) { switch (g.raw(7)) { case 0: stat<1>(g); break; case 1: stat<63>(g); break; case 2: stat<64>(g); break; case 3: stat<65>(g); break; case 4: stat<128>(g); break; case 5: stat<130>(g); break; default: stat<201>(g); } }
