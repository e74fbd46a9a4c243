#include "common.hpp"
#include <sstream>
#include <set>
#include <map>
#include <deque>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include "library/util/bit_utils.hpp"
#include "library/util/container_utils.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/default_operator.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/grid_utils.hpp"
#include "library/util/hashes.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/object_pool.hpp"
using namespace hv; using namespace suisen; using std::vector;

namespace { template <class T> void bits(Gen& g) {
    using U = std::make_unsigned_t<T>; const int W = sizeof(T) * 8; U u = (U)g.u64any(); if (g.coin()) u &= (U)((u64)-1 >> g.in(0, 63)); if (g.chance(1, 4)) u = (U)1 << g.in(0, W - 1); T x = (T)u; g.note(W, std::is_signed_v<T>, (u64)u);
    int pc = 0, hi = -1, lo = W; for (int i = 0; i < W; ++i) if (u >> i & 1) { pc++; hi = i; if (lo == W) lo = i; } EQ(popcount(x), pc); EQ(count_lz(x), W - 1 - hi); EQ(count_tz(x), lo); EQ(parity(x), pc & 1); for (int i = 0; i < W; ++i) EQ(kth_bit(x, i), (int)(u >> i & 1)); if (u && !(std::is_signed_v<T> && hi == W - 1)) { EQ(floor_log2(x), hi); EQ(ceil_log2(x), hi + (pc > 1)); } g.nontrivial(pc > 1 && pc < W); } }
PBT(bit_utils, 12000, "at least two bits set and one clear") { switch (g.in(0, 7)) { case 0: bits<int>(g); break; case 1: bits<unsigned>(g); break; case 2: bits<long long>(g); break; case 3: bits<unsigned long long>(g); break; case 4: bits<unsigned short>(g); break; case 5: bits<unsigned char>(g); break; case 6: bits<short>(g); break; default: bits<signed char>(g); } }

PBT(bounds, 8000, "vector has a repeated value", 8, 12) {
    int n = g.size(0, 20); i64 R = g.pick({ i64(3), i64(10), i64(4000000000000000000) }); auto v = g.vec(n, -R, R); std::sort(v.begin(), v.end()); vector<i64> a(v.begin(), v.end()); i64 k = g.chance(1, 3) && n ? a[g.in(0, n - 1)] : g.range(-R, R); g.note(a, k); int lt = 0, le = 0; for (i64 x : a) lt += x < k, le += x <= k; EQ(count_lt(a, k), lt); EQ(count_leq(a, k), le); EQ(count_gt(a, k), n - le); EQ(count_geq(a, k), n - lt);
    auto opt = [&](int i) { return 0 <= i && i < n ? std::optional<i64>(a[i]) : std::nullopt; }; std::set<i64> s(a.begin(), a.end()); std::multiset<i64> ms(a.begin(), a.end()); CKM(suisen::min_geq(a, k) == opt(lt) && suisen::min_geq(s, k) == opt(lt) && suisen::min_geq(ms, k) == opt(lt), "min_geq"); CKM(suisen::min_gt(a, k) == opt(le) && suisen::min_gt(s, k) == opt(le) && suisen::min_gt(ms, k) == opt(le), "min_gt"); CKM(suisen::max_leq(a, k) == opt(le - 1) && suisen::max_leq(s, k) == opt(le - 1) && suisen::max_leq(ms, k) == opt(le - 1), "max_leq"); CKM(suisen::max_lt(a, k) == opt(lt - 1) && suisen::max_lt(s, k) == opt(lt - 1) && suisen::max_lt(ms, k) == opt(lt - 1), "max_lt"); g.nontrivial((int)s.size() < n);
}
namespace { std::string s128(unsigned __int128 x) { std::string s; do s += char('0' + (int)(x % 10)), x /= 10; while (x); return { s.rbegin(), s.rend() }; } }
PBT(container_utils, 8000, "always", 8, 12) {
    { unsigned __int128 x = ((unsigned __int128)g.u64any() << 64) | g.u64any(); x >>= g.in(0, 127); CKM(stou128(s128(x)) == x, "stou128"); __int128 y = (__int128)x; unsigned __int128 m = y < 0 ? -(unsigned __int128)y : (unsigned __int128)y; std::string t = (y < 0 ? "-" : "") + s128(m); g.note(t); CKM(stoi128(t) == y, "stoi128"); }
    { int n = g.size(0, 12); std::string s; for (int i = 0; i < n; ++i) s += "ab,;"[g.in(0, 3)]; auto p = split(s, ','); std::string j = join(p, ",", ""); CKM(j == s, "split then join"); CKM((int)p.size() == 1 + std::count(s.begin(), s.end(), ','), "split count"); for (auto& q : p) CKM(q.find(',') == std::string::npos, "split pieces"); CKM(join(p, ";;", "!").size() == s.size() + p.size(), "join with separators and end"); vector<int> w(s.begin(), s.end()); auto wp = split(w, (int)'a'); CKM((int)wp.size() == 1 + std::count(s.begin(), s.end(), 'a'), "vector split"); std::string s2 = s; suisen::concat(s2, j); CKM(s2 == s + j && concatenated(s, j) == s + j, "concat"); auto wc = concatenated(w, w); CKM(wc.size() == 2 * w.size() && std::equal(w.begin(), w.end(), wc.begin()) && std::equal(w.begin(), w.end(), wc.begin() + w.size()), "concatenated vectors"); auto mv = mapped_vec([](int x) { return (i64)x * 1000000007; }, w); CKM(mv.size() == w.size(), "mapped_vec size"); for (size_t i = 0; i < w.size(); ++i) CKM(mv[i] == (i64)w[i] * 1000000007, "mapped_vec"); auto cv = copied_vec<i64>(w); CKM(std::equal(w.begin(), w.end(), cv.begin(), cv.end()), "copied_vec"); auto sv = copied_vec<int>(std::set<int>(w.begin(), w.end())); CKM(std::is_sorted(sv.begin(), sv.end()), "copied_vec of a set"); }
    { u64 x = g.u64any() >> g.in(0, 63); int b = g.in(2, 36), w = g.in(0, 70); auto d = digits(x, b); u64 r = 0; CKM(d.size() >= 1 && (d.size() == 1 || d.back() != 0), "no leading zero digits"); for (int i = (int)d.size() - 1; i >= 0; --i) { CKM(0 <= d[i] && d[i] < b, "digit range"); r = r * b + d[i]; } EQ(r, x); auto d10 = digits(x); std::string s = std::to_string(x); CKM(std::equal(s.rbegin(), s.rend(), d10.begin(), d10.end(), [](char c, int y) { return c - '0' == y; }), "decimal digits"); auto chk = [&](std::string t, int base) { u64 q = 0; for (int i = (int)t.size() - 1; i >= 0; --i) { if (t[i] < '0' || t[i] >= '0' + base) return false; q = q * base + (t[i] - '0'); } return q == x && (int)t.size() >= w && ((int)t.size() == w || t.empty() || t.back() != '0'); }; CKM(chk(digits_str(x, w), 2) && chk(digits_str<3>(x, w), 3) && chk(digits_str<10>(x, w), 10), "digits_str"); }
    { char c = 'a' + g.in(0, 25), C = 'A' + g.in(0, 25), d = '0' + g.in(0, 9); CKM(charmap::fa(c) == c - 'a' && charmap::fA(C) == C - 'A' && charmap::fd(d) == d - '0' && charmap::faA(C) == C - 'A' && charmap::faA(c) == 26 + c - 'a', "charmap"); } g.nontrivial(true);
}
namespace { template <class T, class M> void compr(Gen& g, M mk) {
    int n = g.size(0, 20), R = g.pick({ 3, 8, 30 }); vector<T> a; for (int i = 0; i < n; ++i) a.push_back(mk(g.in(-R, R))); using B = CoordinateCompressorBuilder<T>; std::set<T> s(a.begin(), a.end()); vector<T> xs(s.begin(), s.end()); int m = xs.size();
    auto build = [&]() -> typename B::Compressor { switch (g.in(0, 7)) { case 0: return B::build(a); case 1: return B::build(vector<T>(a)); case 2: return B(a).build(); case 3: return B::build(n, [&](int i) { return a[i]; }); case 4: { B b; b.reserve(n); for (auto& x : a) { if (g.coin()) b.push(x); else { T y = x; b.push(std::move(y)); } } return b.build(); } case 5: { B b; int h = g.in(0, n); b.push(a.begin(), a.begin() + h); b.push(vector<T>(a.begin() + h, a.end())); return b.build(); } case 6: { B b; int h = g.in(0, n); for (int i = 0; i < h; ++i) b.emplace(a[i]); b.build(); for (int i = h; i < n; ++i) b.push(a[i]); return b.build(); } default: return typename B::Compressor(xs); } };
    auto c = build(); EQ(c.size(), m); for (int i = 0; i < m; ++i) { CKM(c.comp(xs[i]) == i && c[xs[i]] == i && c.decomp(i) == xs[i] && c.has_key(xs[i]), "index of a key"); }
    for (int t = 0; t < 6; ++t) { T e = mk(g.in(-R - 2, R + 2)), D = mk(77); bool has = s.count(e); int lt = std::lower_bound(xs.begin(), xs.end(), e) - xs.begin(), le = lt + has; CKM(c.has_key(e) == has, "has_key"); CKM(c.comp(e) == (has ? lt : -1) && c.comp(e, 555) == (has ? lt : 555) && c[e] == (has ? lt : -1), "comp"); auto at = [&](int i) { return 0 <= i && i < m ? xs[i] : D; }; CKM(c.min_gt(e, D) == at(le) && c.min_geq(e, D) == at(lt) && c.max_lt(e, D) == at(lt - 1) && c.max_leq(e, D) == at(le - 1), "neighbours"); CKM(c.min_gt_index(e) == le && c.min_geq_index(e) == lt && c.max_lt_index(e) == lt - 1 && c.max_leq_index(e) == le - 1, "neighbour indices"); } g.nontrivial(m >= 2 && m < n); } }
PBT(compressor, 8000, "duplicates and at least two distinct keys", 8, 12) { switch (g.in(0, 2)) { case 0: compr<int>(g, [](int x) { return x; }); break; case 1: compr<i64>(g, [](int x) { return (i64)x * 300000000000000000 / 10; }); break; default: compr<std::string>(g, [](int x) { return std::to_string(x); }); } }

namespace { int xz() { return 0; } int xadd(const int& a, const int& b) { return a ^ b; } }
PBT(cumulative, 6000, "at least two elements", 8, 12) {
    int n = g.size(0, 20); auto v = g.vec(n, -1000000000000, 1000000000000); vector<i64> a(v.begin(), v.end()); int h = g.in(0, n); CumulativeSum<i64> s0(vector<i64>(a.begin(), a.begin() + h)); std::aligned_storage_t<sizeof(CumulativeSum<i64>), alignof(CumulativeSum<i64>)> buf; std::memset(&buf, 0x5a, sizeof buf); auto* d = new (&buf) CumulativeSum<i64>; CKM(d->sum(0, 0) == 0, "empty sum"); for (i64 x : a) d->push_back(x); for (int i = h; i < n; ++i) s0.push_back(a[i]);
    vector<int> b; for (int i = 0; i < n; ++i) b.push_back(g.in(0, 1 << 30)); CumulativeSum<int, xz, xadd, xadd> sx(b); for (int l = 0; l <= n; ++l) { i64 t = 0; int x = 0; for (int r = l; r <= n; ++r) { CKM(s0(l, r) == t && s0.sum(l, r) == t && (*d)(l, r) == t && sx(l, r) == x, "range sum"); if (r < n) t += a[r], x ^= b[r]; } } d->~CumulativeSum<i64>();
    int p = g.in(0, 6), q = g.in(0, 6); vector<vector<i64>> A(p, vector<i64>(q)); for (auto& r : A) for (auto& x : r) x = g.range(-1000, 1000); CumulativeSum2D<i64> s2(A); if (!p) q = 0; for (int u = 0; u <= p; ++u) for (int dd = u; dd <= p; ++dd) for (int l = 0; l <= q; ++l) for (int r = l; r <= q; ++r) { i64 t = 0; for (int i = u; i < dd; ++i) for (int j = l; j < r; ++j) t += A[i][j]; CKM(s2(u, dd, l, r) == t, "rectangle sum"); } CKM(s2(0, p + 1, 0, q) == 0 && s2(0, p, 0, q + 1) == 0, "out of range is zero"); std::aligned_storage_t<sizeof(CumulativeSum2D<i64>), alignof(CumulativeSum2D<i64>)> bf2; std::memset(&bf2, 0x5a, sizeof bf2); auto* e = new (&bf2) CumulativeSum2D<i64>; CKM((*e)(0, 0, 0, 0) == 0 && (*e)(0, 1, 0, 1) == 0, "default constructed 2D"); e->~CumulativeSum2D<i64>(); g.nontrivial(n >= 2);
}
PBT(default_ops, 2000, "always") { namespace D = default_operator; namespace N = default_operator_noref; i64 x = g.range(-1000000, 1000000), y = g.range(1, 1000); CKM(D::zero<i64>() == 0 && D::one<i64>() == 1 && D::add(x, y) == x + y && D::sub(x, y) == x - y && D::mul(x, y) == x * y && D::div(x, y) == x / y && D::mod(x, y) == x % y && D::neg(x) == -x && D::inv(2.0) == 0.5, "default_operator"); CKM(N::zero<i64>() == 0 && N::one<i64>() == 1 && N::add(x, y) == x + y && N::sub(x, y) == x - y && N::mul(x, y) == x * y && N::div(x, y) == x / y && N::mod(x, y) == x % y && N::neg(x) == -x && N::inv(4.0) == 0.25, "default_operator_noref"); g.nontrivial(true); }
PBT(default_vec, 6000, "the vector grew by an access", 8, 12) {
    int n = g.in(0, 6); i64 dv = g.range(-9, 9); default_vector<i64> v(n, 5); vector<i64> m(n, 5); v.set_default_value(dv); bool grew = false; int q = g.size(0, 20); for (int t = 0; t < q; ++t) { int i = g.in(0, 15), op = g.in(0, 5); i64 x = g.range(-99, 99); g.note(op, i, x); auto ens = [&] { if (i >= (int)m.size()) m.resize(i + 1, dv), grew = true; }; auto get = [&](i64 d) { return i < (int)m.size() ? m[i] : d; }; const auto& c = v; if (op == 0) v[i] = x, ens(), m[i] = x; else if (op == 1) v.at(i) += x, ens(), m[i] += x; else if (op == 2) { CKM(c[i] == get(dv) && c.at(i) == get(dv) && c.get_or_default(i) == get(dv) && c.get_or_default(i, 123) == get(123), "read"); CKM(c[-1 - i] == dv && c.get_or_default(-1 - i) == dv, "negative index reads the default"); } else if (op == 3) { v.resize(i); m.resize(i, dv); } else if (op == 4) { dv = x; v.set_default_value(x); } else { i64 y = v[i]; ens(); CKM(y == m[i], "reading access creates"); } CKM(v.size() == (int)m.size() && c.size() == (int)m.size() && std::equal(v.begin(), v.end(), m.begin(), m.end()), "contents"); } g.nontrivial(grew);
}
PBT(grid, 4000, "always") {
    int xl = g.in(-3, 3), xr = xl + g.in(0, 4), yl = g.in(-3, 3), yr = yl + g.in(0, 4), x = g.in(-4, 7), y = g.in(-4, 7); g.note(x, y, xl, xr, yl, yr); using V = vector<std::pair<int, int>>; auto col = [](auto a) { V v; for (const auto& p : a) v.push_back(p); V w = a; CKM(w == v, "iteration equals conversion"); std::set<std::pair<int, int>> s(v.begin(), v.end()); CKM(s.size() == v.size(), "no repeated neighbour"); return s; };
    auto ref = [&](bool eight, bool bd, int a, int b, int c, int d) { std::set<std::pair<int, int>> s; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if ((i || j) && (eight || !i || !j)) if (!bd || (a <= x + i && x + i < b && c <= y + j && y + j < d)) s.emplace(x + i, y + j); return s; };
    CKM(col(adjacent_four_cells(x, y)) == ref(false, false, 0, 0, 0, 0), "four"); CKM(col(adjacent_eight_cells(x, y)) == ref(true, false, 0, 0, 0, 0), "eight"); CKM(col(adjacent_four_cells(x, y, xl, xr, yl, yr)) == ref(false, true, xl, xr, yl, yr), "four bounded"); CKM(col(adjacent_eight_cells(x, y, xl, xr, yl, yr)) == ref(true, true, xl, xr, yl, yr), "eight bounded"); int h = g.in(0, 5), w = g.in(0, 5); CKM(col(adjacent_four_cells(x, y, h, w)) == ref(false, true, 0, h, 0, w), "four in h x w"); CKM(col(adjacent_eight_cells(x, y, h, w)) == ref(true, true, 0, h, 0, w), "eight in h x w");
    CKM(in_range(x, xl, xr) == (xl <= x && x < xr) && out_range(x, xl, xr) == !(xl <= x && x < xr) && in_range(x, h) == (0 <= x && x < h) && out_range(x, h) == !(0 <= x && x < h), "in_range, out_range"); { int r = g.in(-8, 8), v = g.in(-8, 8); i64 R = g.coin() ? i64(r) : g.edgy(INT64_MIN, INT64_MAX), V = g.coin() ? i64(v) : g.edgy(INT64_MIN, INT64_MAX); g.note(r, v, R, V); CKM(in_range(v, r) == (0 <= v && v < r) && out_range(v, r) == !(0 <= v && v < r) && in_range(V, R) == (0 <= V && V < R) && out_range(V, R) == !(0 <= V && V < R), "a bound below zero"); } for (int i = 0; i < 4; ++i) CKM(dxy4[i] == std::make_pair(dx4[i], dy4[i]) && std::abs(dx4[i]) + std::abs(dy4[i]) == 1, "dxy4"); for (int i = 0; i < 8; ++i) CKM(dxy8[i] == std::make_pair(dx8[i], dy8[i]), "dxy8"); g.nontrivial(true);
}
PBT(hashing, 3000, "at least two distinct keys", 8, 12) {
    int n = g.size(0, 30), R = g.pick({ 2, 5, 1000000000 }); std::unordered_set<std::pair<int, i64>> a; std::unordered_set<std::tuple<int, int, std::string>> b; std::unordered_map<std::array<int, 3>, int> c; std::set<std::pair<int, i64>> ra; std::set<std::tuple<int, int, std::string>> rb; std::map<std::array<int, 3>, int> rc; for (int i = 0; i < n; ++i) { int x = g.in(-R, R), y = g.in(-R, R), z = g.in(-R, R); a.emplace(x, y), ra.emplace(x, y); b.emplace(x, y, std::to_string(z)), rb.emplace(x, y, std::to_string(z)); c[{ x, y, z }] += i, rc[{ x, y, z }] += i; } CKM(a.size() == ra.size() && b.size() == rb.size() && c.size() == rc.size(), "sizes"); for (auto& p : ra) CKM(a.count(p), "pair found"); for (auto& p : rb) CKM(b.count(p), "tuple found"); for (auto& [k, v] : rc) CKM(c.at(k) == v, "array found"); std::set<size_t> hs; for (auto& p : ra) hs.insert(std::hash<std::pair<int, i64>>()(p)); if (ra.size() >= 12) CKM(hs.size() >= 2, "the hash distinguishes some keys"); g.nontrivial(ra.size() >= 2);
}
PBT(product, 3000, "non-empty product") { auto sz = [&] { return g.chance(1, 10) ? g.in(-1, 0) : g.in(1, 4); }; int a = sz(), b = sz(); i64 c = sz(); int d = sz(); vector<vector<int>> got, exp; for (auto [x, y, z, w] : product_range(a, b, c, (short)d)) got.push_back({ x, y, z, w }); for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) for (int z = 0; z < c; ++z) for (int w = 0; w < d; ++w) exp.push_back({ x, y, z, w }); CKM(got == exp, "lexicographic product"); int k = 0; for (auto [x] : product_range(a)) CKM(x == k++, "one dimension"); EQ(k, std::max(a, 0)); g.nontrivial(!exp.empty()); }
namespace { struct Obj { int v = 7; }; template <bool AE> void pool(Gen& g) { int cap = AE ? g.in(0, 3) : g.in(1, 8); ObjectPool<Obj, AE> p(cap); std::map<Obj*, int> live; int q = g.size(0, 60), mx = 0; EQ(p.capacity(), cap); for (int t = 0; t < q; ++t) { int op = g.in(0, 9); if (op <= 5) { if (!AE && (int)live.size() == cap) continue; Obj* o = p.alloc(); CKM(o && !live.count(o), "alloc returns an unused object"); o->v = t; live[o] = t; } else if (op <= 8) { if (live.empty()) continue; auto it = live.begin(); std::advance(it, g.in(0, (int)live.size() - 1)); p.free(it->first); live.erase(it); } else if (g.chance(1, 4)) { p.clear(); live.clear(); } mx = std::max(mx, (int)live.size()); EQ(p.size(), (int)live.size()); CKM(p.capacity() >= p.size() && p.capacity() >= cap, "capacity"); for (auto& [o, v] : live) CKM(o->v == v, "objects stay put"); } g.nontrivial(mx >= (AE ? 4 : 2)); } }
PBT(object_pool, 5000, "several live objects", 8, 12) { if (g.coin()) pool<true>(g); else pool<false>(g); }
