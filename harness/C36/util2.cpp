#include "common.hpp"
#include <set>
#include <map>
#include <algorithm>
#include <tuple>
#include <functional>
#include <memory>
#include <variant>
#include "library/util/pair_ops.hpp"
#include "library/util/permutation.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/rot90.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/search.hpp"
#include "library/util/step_sum.hpp"
#include "library/util/step_view.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/tuple_ops.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/variant_utils.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/zobrist_hash.hpp"
using namespace hv; using namespace suisen; using std::vector;

PBT(pair_tuple_ops, 4000, "always") {
    using Pr = std::pair<i64, int>; auto v = [&] { return g.in(-1000, 1000); }; Pr a{ v(), v() }, b{ v(), v() }; int m = g.in(-20, 20); CKM(a + b == Pr(a.first + b.first, a.second + b.second) && a - b == Pr(a.first - b.first, a.second - b.second) && a * m == Pr(a.first * m, a.second * m) && m * a == a * m, "pair"); Pr c = a; c += b; CKM(c == a + b, "+="); c -= b; CKM(c == a, "-="); c *= m; CKM(c == a * m, "*="); c = a; c += c; CKM(c == a * 2, "+= itself");
    using Tp = std::tuple<i64, int, double>; Tp s{ v(), v(), v() }, t{ v(), v(), v() }; auto [s0, s1, s2] = s; auto [t0, t1, t2] = t; CKM(s + t == Tp(s0 + t0, s1 + t1, s2 + t2) && s - t == Tp(s0 - t0, s1 - t1, s2 - t2) && s * m == Tp(s0 * m, s1 * m, s2 * m) && m * s == s * m, "tuple"); if (m) CKM(s / m == Tp(s0 / m, s1 / m, s2 / m), "tuple division"); Tp u = s; u += t; CKM(u == s + t, "tuple +="); u -= t; CKM(u == s, "tuple -="); u *= m; CKM(u == s * m, "tuple *="); if (m) { u = s; u /= m; CKM(u == s / m, "tuple /="); } std::tuple<> e; e += e; CKM(e == std::tuple<>(), "empty tuple"); g.nontrivial(true);
}
PBT(permutation, 6000, "at least three elements") {
    int n = g.size(0, 9); auto pv = g.perm(n), qv = g.perm(n); Permutation p(vector<int>(pv.begin(), pv.end())), q(vector<int>(qv.begin(), qv.end())); g.note(pv, qv); auto a = g.vec(n, 0, 99); vector<i64> A(a.begin(), a.end()); auto b = p.permute(A), c = p.inv_permute(A); for (int i = 0; i < n; ++i) CKM(b[i] == A[p[i]] && c[p[i]] == A[i], "permute"); Permutation r = p * q; for (int i = 0; i < n; ++i) CKM(r[i] == p[q[i]], "product"); Permutation s = p; s *= q; CKM(s == r, "*="); s = p; s *= s; CKM(s == p * p, "*= itself"); Permutation id(n), id2((size_t)n); CKM(p * p.inv() == id && p.inv() * p == id && id == id2, "inverse");
    int k = g.in(0, 30); Permutation w(n); for (int i = 0; i < k; ++i) w *= p; CKM(p.pow(k) == w, "power"); i64 K = g.chance(1, 3) ? INT64_MAX - g.in(0, 3) : (i64)(g.u64any() >> 1); vector<int> e(n); for (int i = 0; i < n; ++i) { int l = 1; for (int x = p[i]; x != i; x = p[x]) ++l; int x = i; for (i64 t = K % l; t--;) x = p[x]; e[i] = x; } CKM((vector<int>)p.pow(K) == e, "huge power"); auto so = Permutation::index_sort(A); auto ss = so.permute(A); CKM(std::is_sorted(ss.begin(), ss.end()), "index_sort"); auto sg = Permutation::index_sort(A, std::greater<i64>()).permute(A); CKM(std::is_sorted(sg.rbegin(), sg.rend()), "index_sort with a comparator"); { auto x = so; std::sort(x.begin(), x.end()); CKM(x == id, "index_sort is a permutation"); }
    i64 f = 1; for (int i = 2; i <= n; ++i) f *= i; i64 h = PermutationHash<i64>::hash(p); CKM(0 <= h && h < f, "hash range"); CKM(PermutationHash<i64>::unhash(n, h) == p, "unhash inverts hash"); CKM(PermutationHash<unsigned>()(p) == (unsigned)h, "call operator"); i64 hh = g.range(0, f - 1); auto up = PermutationHash<i64>::unhash(n, hh); { auto x = up; std::sort(x.begin(), x.end()); CKM(x == id, "unhash gives a permutation"); } EQ(PermutationHash<i64>::hash(up), hh); g.nontrivial(n >= 3);
}
PBT(permutation_large, 60, "always") { int n = g.in(10, 20); auto pv = g.perm(n); Permutation p(vector<int>(pv.begin(), pv.end())); CKM(PermutationHash<u64>::unhash(n, PermutationHash<u64>::hash(p)) == p, "round trip"); g.nontrivial(true); }
namespace { struct Nd { int a; std::string s; Nd(int a = 0, std::string s = "") : a(a), s(s) {} }; using Pp = ptr32<Nd>; }
PBT(ptr32, 3000, "an object was deallocated and another allocated", 8, 12) {
    Pp::dealloc_all(g.coin()); if (g.coin()) Pp::reserve(g.in(0, 10)); std::map<int, std::pair<int, std::string>> live; int q = g.size(0, 40); bool fr = false, re = false; for (int t = 0; t < q; ++t) { if (live.empty() || g.chance(3, 5)) { auto p = Pp::alloc(t, std::to_string(t)); CKM(p.is_not_null() && !p.is_null() && bool(p) && p != nullptr && !live.count(int(p)), "fresh pointer"); live[int(p)] = { t, std::to_string(t) }; re |= fr; } else { auto it = live.begin(); std::advance(it, g.in(0, (int)live.size() - 1)); Pp p(it->first); if (g.coin()) { Pp::dealloc(p); live.erase(it); fr = true; } else { p->a += 5; (*p).s += "x"; it->second.first += 5; it->second.second += "x"; } } for (auto& [k, v] : live) { Pp p(k); CKM(p->a == v.first && (*p).s == v.second, "contents"); } } Pp z, y(nullptr); CKM(z.is_null() && !z && z == y && z == nullptr && int(z) == -1, "null"); int i = g.in(0, 9), j = g.in(0, 9); Pp x(i), w(j); CKM((x == w) == (i == j) && (x != w) == (i != j) && (x < w) == (i < j) && (x <= w) == (i <= j) && (x > w) == (i > j) && (x >= w) == (i >= j), "order"); Pp::dealloc_all(true); g.nontrivial(re);
}
PBT(rot_transpose, 4000, "at least 2x2") {
    int n = g.in(0, 5), m = g.in(1, 5); vector<vector<int>> a(n, vector<int>(m)); vector<std::string> s(n, std::string(m, ' ')); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = g.in(0, 99), s[i][j] = 'a' + a[i][j] % 26; auto r = rot90(a), t = transpose(a); auto rs = rot90(s), ts = transpose(s); if (!n) CKM(r.empty() && t.empty() && rs.empty() && ts.empty(), "empty"); else { CKM((int)r.size() == m && (int)t.size() == m && (int)rs.size() == m && (int)ts.size() == m, "shape"); for (int j = 0; j < m; ++j) { CKM((int)r[j].size() == n && (int)t[j].size() == n && (int)rs[j].size() == n, "shape"); for (int i = 0; i < n; ++i) CKM(r[j][i] == a[i][m - 1 - j] && t[j][i] == a[i][j] && rs[j][i] == s[i][m - 1 - j] && ts[j][i] == s[i][j], "cells"); } CKM(rot90(rot90(rot90(rot90(a)))) == a && transpose(transpose(a)) == a, "rotations compose"); } g.nontrivial(n >= 2 && m >= 2);
}
PBT(rle, 6000, "a pop splits a run", 8, 12) {
    auto gen = [&] { std::string s; int n = g.size(0, 12); for (int i = 0; i < n; ++i) s += "ab"[g.in(0, 1)]; return s; }; std::string m = gen(), m2 = gen(); RunLengthEncoder<std::string> e = m.empty() && g.coin() ? RunLengthEncoder<std::string>() : RunLengthEncoder<std::string>(m), e2(m2); bool split = false; int q = g.in(0, 8);
    auto chk = [&](const RunLengthEncoder<std::string>& r, const std::string& s, const char* w) { CKM(r.length() == (i64)s.size(), w); std::string t; char last = 0; for (auto& [c, k] : r) { CKM(c != last && k > 0, w); last = c; t += std::string(k, c); } CKM(t == s, w); CKM(std::equal(r.cbegin(), r.cend(), r.begin(), r.end()) && std::equal(std::make_reverse_iterator(r.end()), std::make_reverse_iterator(r.begin()), r.rbegin(), r.rend()) && r.crbegin() == r.rbegin() && r.crend() == r.rend(), w); if (s.size()) CKM(r.front().first == s[0] && r.back().first == s.back() && r.back().second == (i64)(s.size() - 1 - (s.find_last_not_of(s.back()) == std::string::npos ? -1 : (i64)s.find_last_not_of(s.back()))), w); };
    chk(e, m, "initial"); for (int t = 0; t < q; ++t) { int op = g.in(0, 4); if (op <= 1) { char c = "ab"[g.in(0, 1)]; int k = g.in(1, 4); g.note("push", c, k); if (k == 1 && g.coin()) e.push_back(c); else e.push_back(c, k); m += std::string(k, c); } else if (op == 2) { i64 k = g.in(0, 6); i64 before = std::distance(e.begin(), e.end()); g.note("pop", k); i64 r = k == 1 && g.coin() ? e.pop_back() : e.pop_back(k); CKM(r == std::min<i64>(k, m.size()), "number of popped elements"); m.resize(m.size() - r); split |= r > 0 && std::distance(e.begin(), e.end()) == before; } else if (op == 3) { g.note("swap"); e.swap(e2); std::swap(m, m2); } else if (g.chance(1, 3)) { g.note("clear"); e.clear(); m.clear(); } chk(e, m, "after the operation"); chk(e2, m2, "the other"); } RunLengthEncoder<vector<int>> v(vector<int>(3, 4)); CKM(v.length() == 3 && v.front() == std::make_pair(4, 3LL), "vector"); g.nontrivial(split);
}
PBT(searches, 6000, "interior optimum") {
    using TT = ternary_search_tag; i64 l = g.edgy(-1000, 1000), r = l + g.edgy(0, 300), x = g.range(l - 3, r + 3); i64 a = g.in(1, 5), b = g.in(1, 5), c = g.range(-1000000000000, 1000000000000); int fl = g.in(0, 3); g.note(l, r, x, a, b, c, fl); int calls = 0; auto f = [&](i64 t) -> i64 { ++calls; return c + (t < x ? a * (x - t) * (fl == 1 ? x - t : 1) : t <= x + fl ? 0 : b * (t - x - fl) * (fl == 2 ? t - x - fl : 1)); }; i64 best = INT64_MAX; for (i64 t = l; t <= r; ++t) best = std::min(best, f(t)); calls = 0; i64 k = ternary_search_key<TT::Convex>(l, r, f); CKM(l <= k && k <= r && f(k) == best, "argmin"); CKM(calls < 200, "logarithmic"); CKM(ternary_search_value<TT::Convex>(l, r, f) == best, "min"); auto nf = [&](int t) -> i64 { return -f(t); }; int k2 = ternary_search_key<TT::Concave>((int)l, (int)r, nf); CKM(l <= k2 && k2 <= r && nf(k2) == -best, "argmax"); CKM(ternary_search_value<TT::Concave>((int)l, (int)r, nf) == -best, "max in a type wider than the argument");
    { double L = l, R = r; auto fd = [&](double t) { return std::abs(t - x) * a; }; double w = std::clamp<double>(x, L, R), kk = ternary_search_key<TT::Convex>(L, R, 200, fd); CKM(std::abs(kk - w) < 1e-6 && L <= kk && kk <= R, "real argmin"); CKM(std::abs(ternary_search_value<TT::Convex>(L, R, (size_t)200, fd) - fd(w)) < 1e-5, "real min"); double km = ternary_search_key<TT::Concave>(L, R, 200, [&](double t) { return -fd(t); }); CKM(std::abs(km - w) < 1e-6, "real argmax"); }
    { // any range of the type, up to all of it
      auto wide = [&](auto zero) { using A = decltype(zero); using L = std::numeric_limits<A>; auto any = [&] { i64 v = g.edgy((i64)L::min(), (i64)L::max()); return (A)v; }; A lo = any(), hi = any(); if (lo > hi) std::swap(lo, hi); A y = (A)g.edgy((i64)lo, (i64)hi); int n = 0; auto q = [&](A t) { ++n; CKM(lo <= t && t <= hi, "probes inside the range"); return t < y ? (i128)y - t : ((i128)t - y) * 2; }; EQ(ternary_search_key<TT::Convex>(lo, hi, q), y); CKM(n < 400, "logarithmic"); EQ(ternary_search_key<TT::Concave>(lo, hi, [&](A t) { return -q(t); }), y); if (lo < hi) { A th = (A)g.edgy((i64)lo + 1, (i64)hi); EQ(suisen::binary_search(lo, hi, [&](A t) { CKM(lo <= t && t <= hi, "probes inside the range"); return t >= th; }), th); int m = 0; EQ(binary_search_exponential(lo, [&](A t) { CKM(lo <= t && ++m < 400, "probes above the start"); return t >= th; }), th); } };
      wide((i64)0); wide((int)0); wide((short)0); }
    { i64 R = g.pick({ i64(5), i64(1000), i64(4000000000000000000) }); i64 lo = g.range(-R, R), hi = lo + 1 + g.range(0, R), th = g.range(lo + 1, hi); auto pr = [&](i64 t) { CKM(lo <= t && t <= hi, "probes inside the range"); return t >= th; }; EQ(suisen::binary_search(lo, hi, pr), th); i64 l0 = g.range(-1000000000, 1000000000), th2 = l0 + 1 + g.range(0, 1000000000000000); EQ(binary_search_exponential(l0, [&](i64 t) { return t >= th2; }), th2); unsigned ul = g.in(0, 100), uh = ul + g.in(1, 100), ut = ul + g.in(1, (int)(uh - ul)); EQ(suisen::binary_search(ul, uh, [&](unsigned t) { return t >= ut; }), ut); } g.nontrivial(l < x && x < r);
}
PBT(step, 6000, "query covers at least two terms", 8, 12) {
    int n = g.size(0, 30), st = g.pick({ 1, 2, 3, 5, 7, 40 }); auto v = g.vec(n, -1000000, 1000000); vector<i64> a(v.begin(), v.end()); StepSum s(a, st); bool nt = false; for (int i = 0; i < n; ++i) { i64 e = 0; for (int j = i; j >= 0; j -= st) e += a[j]; CKM(s.data()[i] == e, "data"); } const auto& cs = s; CKM((int)cs.data().size() == n, "size"); for (int t = 0; t < 8; ++t) { int k = g.in(0, st - 1), l = g.in(0, n + 3), r = g.in(0, n + 5); g.note(st, k, l, r); i64 e = 0; int c = 0; for (int i = l; i < std::min(r, n); ++i) if (i % st == k) e += a[i], ++c; CKM(s.sum(k, l, r) == e && s(k, l, r) == e, "sum over a residue class"); nt |= c >= 2; } StepSum<i64> dflt; CKM(dflt.sum(0, 0, 5) == 0, "default"); vector<int> ia(a.begin(), a.end()); StepSum<i64> s2(ia, st); for (int i = 0; i < n; ++i) CKM(s2.data()[i] == s.data()[i], "wider value type");
    int s0 = g.in(0, st - 1), c = n > s0 ? (n - s0 + st - 1) / st : 0; if (c) { StepView<vector<i64>> view(a, s0, st, c); CKM((int)view.size() == c, "view size"); for (int i = 0; i < c; ++i) CKM(&view[i] == &a[s0 + i * st], "view element"); StepIterator<vector<i64>::iterator> b(a.begin() + s0, st); for (int i = 0; i < c; ++i) { CKM(&b[i] == &a[s0 + i * st] && &*(b + i) == &*(i + b), "iterator element"); auto it = b + i; CKM(it - b == i && b - it == -i && (it == b) == (i == 0) && (it != b) == (i != 0) && (b < it) == (i > 0) && (b <= it) && (it > b) == (i > 0) && it >= b, "iterator comparison"); if (i) { auto p = it; CKM(&*--p == &a[s0 + (i - 1) * st] && p++ == b + (i - 1) && p == it && p-- == it && ++p == it && it - i == b, "iterator steps"); p -= i; CKM(p == b, "-="); p += i; CKM(p == it, "+="); } } view[c - 1] = 42; CKM(a[s0 + (c - 1) * st] == 42, "writes through"); } g.nontrivial(nt);
}
PBT(subsets, 4000, "at least two elements") {
    { u64 s = 0; int b = g.in(0, 8), W = g.pick({ 10, 31, 62 }); for (int i = 0; i < b; ++i) s |= 1ULL << g.in(0, W - 1); g.note(s); int pc = __builtin_popcountll(s); std::set<u64> got; int c = 0; for (u64 t : all_subset<u64>(s)) { ++c; CKM((t & ~s) == 0, "subset"); got.insert(t); } CKM(c == (1 << pc) && (int)got.size() == c, "all subsets once"); if (W == 10) { int d = 0; for (int t : all_subset((int)s)) { CKM(got.count(t), "int subset"); ++d; } EQ(d, c); }
      for (int k = 0; k <= pc + 1; ++k) { std::set<u64> e, a; for (u64 t : got) if (__builtin_popcountll(t) == k) e.insert(t); int cnt = 0; for (u64 t : all_subset_k_64(s, k)) a.insert(t), ++cnt; CKM(a == e && cnt == (int)e.size(), "k-subsets (64)"); if (W < 32) { a.clear(); cnt = 0; for (uint32_t t : all_subset_k((uint32_t)s, k)) a.insert(t), ++cnt; CKM(a == e && cnt == (int)e.size(), "k-subsets (32)"); } }
      vector<int> bits, g64, g32; for (int i = 0; i < 64; ++i) if (s >> i & 1) bits.push_back(i); for (auto i : all_setbit_64(s)) g64.push_back(i); CKM(g64 == bits, "set bits (64)"); if (W < 32) { for (auto i : all_setbit((uint32_t)s)) g32.push_back(i); CKM(g32 == bits, "set bits (32)"); } g.nontrivial(pc >= 2); }
    { int n = g.in(0, 12), k = g.in(0, 13); int c = 0; uint32_t last = 0; for (uint32_t t : all_subset_k::nCk(n, k)) { CKM(t < (1u << n) && __builtin_popcount(t) == k && (c == 0 || t > last), "nCk"); last = t; ++c; } i64 e = 1; if (k > n) e = 0; for (int i = 0; i < k && k <= n; ++i) e = e * (n - i) / (i + 1); EQ((i64)c, e); }
    { u64 s = g.u64any(); if (s == ~0ULL) s = 5; uint32_t s2 = (uint32_t)s; if (s2 == ~0u) s2 = 9; int p6 = __builtin_popcountll(s), p3 = __builtin_popcount(s2), k6 = g.in(p6 + 1, g.pick({ p6 + 1, 70, 140 })), k3 = g.in(p3 + 1, g.pick({ p3 + 1, 40, 70 })); g.note(s, k6, s2, k3); for (u64 t : all_subset_k_64(s, k6)) CKM(t != t, "no subset is larger than the set (64)"); for (uint32_t t : all_subset_k(s2, k3)) CKM(t != t, "no subset is larger than the set (32)"); }
    if (g.chance(1, 20)) { uint32_t s = ~(1u << g.in(0, 31)); int k = g.pick({ 0, 1, 2, 29, 30, 31 }), c = 0; for (uint32_t t : all_subset_k(s, k)) { CKM((t & ~s) == 0 && __builtin_popcount(t) == k, "31-bit universe"); if (++c > 500) break; } EQ(c, k == 0 || k == 31 ? 1 : k == 1 || k == 30 ? 31 : 465); u64 s6 = ~(1ULL << g.in(0, 63)); int k6 = g.pick({ 0, 1, 2, 61, 62, 63 }); c = 0; for (u64 t : all_subset_k_64(s6, k6)) { CKM((t & ~s6) == 0 && __builtin_popcountll(t) == k6, "63-bit universe"); if (++c > 2500) break; } EQ(c, k6 == 0 || k6 == 63 ? 1 : k6 == 1 || k6 == 62 ? 63 : 1953); vector<int> all; for (auto i : all_setbit(~0u)) all.push_back(i); EQ((int)all.size(), 32); all.clear(); for (auto i : all_setbit_64(~0ULL)) all.push_back(i); EQ((int)all.size(), 64); }
}
PBT(sum_counts_any_int, 8000, "some but not all pairs qualify") {
    auto seg = [&](int& lo, int& hi) { lo = (int)g.edgy(-2147483648LL, 2147483647LL); i64 w = g.edgy(-5, 2000000000); hi = (int)std::clamp<i64>(lo + w, -2147483648LL, 2147483647LL); if (g.coin()) { hi = (int)g.edgy(-2147483648LL, 2147483647LL); lo = (int)std::clamp<i64>(hi - w, -2147483648LL, 2147483647LL); } };
    int a, b, c, d; seg(a, b); seg(c, d); int s = (int)(g.chance(3, 4) && a <= b && c <= d ? std::clamp<i64>(g.edgy((i64)a + c, (i64)b + d), -2147483648LL, 2147483647LL) : g.edgy(-2147483648LL, 2147483647LL)); g.note(a, b, c, d, s);
    auto T = [](i128 k) -> i128 { return k < 0 ? 0 : (k + 1) * (k + 2) / 2; }; i128 ra = (i128)b - a, rb = (i128)d - c; auto leq = [&](i128 x) -> i128 { if (ra < 0 || rb < 0) return 0; i128 k = x - a - c; return T(k) - T(k - ra - 1) - T(k - rb - 1) + T(k - ra - rb - 2); };
    i128 all = ra < 0 || rb < 0 ? 0 : (ra + 1) * (rb + 1), le = leq(s), lt = leq((i128)s - 1);
    CKM((sum_count<int, i64>(a, b, c, d, s) == le - lt), "="); CKM((sum_count_leq<int, i64>(a, b, c, d, s) == le), "<="); CKM((sum_count_lt<int, i64>(a, b, c, d, s) == lt), "<"); CKM((sum_count_geq<int, i64>(a, b, c, d, s) == all - lt), ">="); CKM((sum_count_gt<int, i64>(a, b, c, d, s) == all - le), ">"); g.nontrivial(le > 0 && le < all);
}
PBT(sum_counts, 8000, "some but not all pairs qualify") {
    int R = g.pick({ 3, 8, 15 }); auto v = [&] { return g.in(-R, R); }; int a = v(), b = v(), c = v(), d = v(), s = g.in(-2 * R - 2, 2 * R + 2); if (g.chance(3, 4)) { if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); } g.note(a, b, c, d, s); i64 eq = 0, le = 0, lt = 0, ge = 0, gt = 0; for (int x = a; x <= b; ++x) for (int y = c; y <= d; ++y) { eq += x + y == s; le += x + y <= s; lt += x + y < s; ge += x + y >= s; gt += x + y > s; } CKM(sum_count(a, b, c, d, s) == eq, "="); CKM(sum_count_leq(a, b, c, d, s) == le, "<="); CKM(sum_count_lt(a, b, c, d, s) == lt, "<"); CKM(sum_count_geq(a, b, c, d, s) == ge, ">="); CKM(sum_count_gt(a, b, c, d, s) == gt, ">"); CKM((sum_count<i64>(a, b, c, d, s) == eq && sum_count_leq<int, i64>(a, b, c, d, s) == le && sum_count_gt<i64>(a, b, c, d, s) == gt), "64 bits");
    // a large box, result type wider than the arguments: compare the relations with each other and with the closed form of a full box
    { int A = g.in(50000, 400000000), B = g.in(50000, 400000000); int S = g.in(0, A + B); i64 all = (i64)(A + 1) * (B + 1); i64 l1 = sum_count_leq<int, i64>(0, A, 0, B, S), l2 = sum_count_lt<int, i64>(0, A, 0, B, S), g1 = sum_count_geq<int, i64>(0, A, 0, B, S), g2 = sum_count_gt<int, i64>(0, A, 0, B, S), e = sum_count<int, i64>(0, A, 0, B, S); g.note(A, B, S); __int128 w = 0; i64 f = std::min<i64>(A, S - B); if (f >= 0) w += (__int128)(f + 1) * (B + 1); i64 from = std::max<i64>(0, f + 1), to = std::min<i64>(A, S); if (from <= to) w += (__int128)(to - from + 1) * ((S - from + 1) + (S - to + 1)) / 2; CKM(l1 == (i64)w && l1 - e == l2 && l1 + g2 == all && l2 + g1 == all, "wide result type"); } g.nontrivial(le > 0 && gt > 0);
}
PBT(proxy_match, 3000, "always") {
    i64 v = g.in(0, 1000), w = v; int calls = 0; auto px = [&] { return UpdateProxyObject(v, [&] { ++calls; }); }; int c = g.in(1, 9); ++px(); ++w; --px(); --w; px() += c; w += c; px() -= c + 1; w -= c + 1; px() *= c; w *= c; px() /= c; w /= c; px() %= 500; w %= 500; px() <<= 2; w <<= 2; px() >>= 1; w >>= 1; px().apply([&](i64 x) { return x * 3 + c; }); w = w * 3 + c; CKM(v == w && calls == 10 && (i64)px() == w, "update proxy"); px() = 77; CKM(v == 77 && calls == 11, "assignment");
    std::variant<int, std::string, double> x; int k = g.in(0, 2); if (k == 0) x = c; else if (k == 1) x = std::string("s"); else x = 2.5; int hit = -1; Match(x).with<int>([&](int y) { hit = 0; CKM(y == c, "value"); }).with<std::string>([&](const std::string& y) { hit = 1; CKM(y == "s", "value"); }).otherwise([&] { hit = 2; }); EQ(hit, k); int h2 = 0; Match(std::variant<int, double>(1.5)).with<int>([&](int) { h2 = 1; }).with<double>([&](double y) { h2 = y == 1.5 ? 2 : 3; }).otherwise([&] { h2 = 4; }); EQ(h2, 2); g.nontrivial(true);
}
PBT(vec_ops, 5000, "non-empty operands", 8, 12) {
    int n = g.size(0, 9), m = g.size(0, 9), k = g.in(0, 4); auto av = g.vec(n, 0, 9), bv = g.vec(m, 0, 9); vector<i64> a(av.begin(), av.end()), b(bv.begin(), bv.end()); auto cat = [](vector<i64> x, const vector<i64>& y) { for (i64 t : y) x.push_back(t); return x; }; g.note(a, b, k); CKM(a + b == cat(a, b), "+"); auto c = a; c += b; CKM(c == cat(a, b), "+="); c = a; c += c; CKM(c == cat(a, a), "+= itself"); i64 e = g.in(0, 9); c = a; c += e; CKM(c == cat(a, { e }) && a + e == c, "append an element"); c = a; c += i64(5); CKM(c == cat(a, { 5 }) && a + i64(5) == c, "append a temporary"); vector<i64> r; for (int i = 0; i < k; ++i) r = cat(r, a); c = a; c *= k; CKM(c == r, "*="); CKM(a * k == r, "*"); const auto& ca = a; CKM(ca * k == r, "* on a constant"); vector<std::string> s{ "x", "yy" }; CKM((s * 2 == vector<std::string>{ "x", "yy", "x", "yy" }), "strings"); g.nontrivial(n && m);
}
namespace { template <class Z, class V> void zob(Gen& g, Z& z, V val, int U) { using H = typename Z::hash_type; vector<H> h(U); vector<int> ord(U); for (int i = 0; i < U; ++i) ord[i] = i; g.shuffle(ord); for (int i : ord) h[i] = z(val(i)); for (int i = 0; i < U; ++i) CKM(z(val(i)) == h[i] && z.sigleton_set(val(i)) == h[i], "stable per key"); std::set<H> d(h.begin(), h.end()); CKM(sizeof(H) < 8 || (int)d.size() == U, "distinct keys have distinct hashes"); if (sizeof(H) == 8) { vector<uint64_t> bs; for (int i = 0; i < U && i < 22; ++i) { uint64_t x = h[ord[i]]; for (uint64_t b : bs) x = std::min(x, x ^ b); CKM(x, "distinct sets have distinct hashes: a key is the sum of others"); bs.push_back(x); } } CKM(z.empty_set() == 0, "empty set"); H cur = z.empty_set(); std::set<int> S; for (int t = 0; t < 12; ++t) { int i = g.in(0, U - 1); cur = z.flip(cur, val(i)); if (!S.insert(i).second) S.erase(i); H e = 0; for (int j : S) e = z.xor_set(e, z.sigleton_set(val(j))); CKM(cur == e, "hash of a set is independent of the order"); if (sizeof(H) == 8) CKM((cur == 0) == S.empty(), "non-empty set"); } } }
PBT(zobrist, 3000, "always") { int U = g.in(1, 40); switch (g.in(0, 5)) { case 0: { VecZobristHash<> z; zob(g, z, [](int i) { return (size_t)i; }, U); break; } case 1: { VecZobristHash<> z(g.in(0, 20)); zob(g, z, [](int i) { return (size_t)i; }, U); break; } case 2: { ArrZobristHash<40> z; zob(g, z, [](int i) { return (size_t)i + 1; }, U); break; } case 3: { MapZobristHash<std::string> z; zob(g, z, [](int i) { return std::to_string(i); }, U); break; } case 4: { vector<i64> u; for (int i = 0; i < g.in(0, 20); ++i) u.push_back(i * 1000000007LL); MapZobristHash<i64> z(u); zob(g, z, [](int i) { return i * 1000000007LL; }, U); break; } default: { VecZobristHash<uint32_t> z(3); zob(g, z, [](int i) { return (size_t)i; }, U); } } g.nontrivial(true); }
// subsets of a set that uses every bit of its type
template <class T> static void full_sets(Gen& g) { T s = T(~T(0)); if (g.coin()) s = T(s ^ T(T(1) << g.raw(sizeof(T) * 8))); u64 c = 0; T last = 0; for (auto t : suisen::all_subset<T>(s)) { CKM(T(t & T(~s)) == 0, "subset"); if (c) CKM(T(t) < last, "each once, from the largest down"); last = t; ++c; } EQ(c, 1ULL << __builtin_popcountll(u64(s))); CK(last == 0); }
PBT(full_subset, 60, "every case") { if (g.coin()) full_sets<uint8_t>(g); else full_sets<uint16_t>(g); u64 s = ~0ULL; int c = 0; u64 last = 0; for (u64 t : suisen::all_subset<u64>(s)) { EQ(t, s - c); if (++c == 50) break; } EQ(c, 50); g.nontrivial(); (void)last; }
