// Contest-scale runs of the standalone algorithms against near-linear oracles.
#include "large.hpp"
#include <deque>
#include <map>
#include <set>
#include <variant>
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
using namespace hv; using namespace suisen; using std::vector;

PBT(union_area_large, 3, "every case: tens of thousands of rectangles") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 100000); const int R = 1200; int kind = g.in(0, 2); i64 sx = g.pick({ i64(1), i64(100000) }), sy = g.pick({ i64(1), i64(70000) });
    vector<std::tuple<i64, i64, i64, i64>> rs; vector<vector<int>> d(R + 2, vector<int>(R + 2)); vector<i64> cx(R + 1), cy(R + 1); for (int i = 1; i <= R; ++i) cx[i] = cx[i - 1] + 1 + b.raw(sx), cy[i] = cy[i - 1] + 1 + b.raw(sy);
    for (int i = 0; i < n; ++i) { int a = b.in(0, R), c = b.in(0, R), x, y; if (kind == 0) x = std::min<int>(R, a + b.raw(4)), y = std::min<int>(R, c + b.raw(4)); else if (kind == 1) x = std::min<int>(R, a + b.raw(3)), y = std::min<int>(R, c + b.raw(R)); else { x = b.in(0, R), y = b.in(0, R); if (i > 6) x = std::min(R, a + 1), y = std::min(R, c + 1); if (a > x) std::swap(a, x); if (c > y) std::swap(c, y); }
        rs.emplace_back(cx[a], cx[x], cy[c], cy[y]); d[a][c]++, d[x][c]--, d[a][y]--, d[x][y]++; }
    i64 e = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) { int v = d[i][j]; if (i) v += d[i - 1][j]; if (j) v += d[i][j - 1]; if (i && j) v -= d[i - 1][j - 1]; d[i][j] = v; if (v) e += (cx[i + 1] - cx[i]) * (cy[j + 1] - cy[j]); }
    g.note(n, kind); EQ(area_of_union_of_rectangles(rs), e);
}
PBT(inversions_large, 4, "every case: past 2^16 elements") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 300000); i64 R = g.pick({ i64(1), i64(300), i64(4000000000000000000) }); auto a = b.vec<i64>(n, -R, R); if (g.coin()) { std::sort(a.begin(), a.end(), std::greater<i64>()); for (int t = 0; t < 50; ++t) std::swap(a[b.raw(n)], a[b.raw(n)]); }
    // merge sort
    vector<i64> s = a, t(n); i64 e = 0; for (int w = 1; w < n; w *= 2) { for (int l = 0; l < n; l += 2 * w) { int m = std::min(n, l + w), r = std::min(n, l + 2 * w), i = l, j = m, k = l; while (i < m || j < r) if (j == r || (i < m && s[i] <= s[j])) t[k++] = s[i++]; else e += m - i, t[k++] = s[j++]; } s.swap(t); }
    EQ((i64)inversion_number(a), e);
}
PBT(rectangles_large, 3, "every case: a grid of a million cells") {
    Bulk b(g); g.nontrivial(); int n, m; switch (g.raw(4)) { case 0: n = 1500, m = 700; break; case 1: n = 2, m = 300000; break; case 2: n = 300000, m = 2; break; default: n = g.in(500, 1000), m = g.in(500, 1000); } int holes = g.pick({ 0, 1, 30, 3000, 200000 }); vector<vector<int>> a(n, vector<int>(m, 1)); for (int i = 0; i < holes; ++i) a[b.raw(n)][b.raw(m)] = 0; g.note(n, m, holes);
    vector<vector<int>> S(n + 1, vector<int>(m + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) S[i + 1][j + 1] = S[i][j + 1] + S[i + 1][j] - S[i][j] + (a[i][j] == 0); auto full = [&](int u, int x, int l, int r) { return S[x][r] - S[u][r] - S[x][l] + S[u][l] == 0; };
    int best = 0, sq = 0; vector<int> h(m), L(m), Rr(m), st; vector<vector<int>> dp(2, vector<int>(m + 1)); for (int i = 0; i < n; ++i) { st.clear(); auto& cur = dp[i & 1]; auto& prv = dp[~i & 1]; for (int j = 0; j < m; ++j) { h[j] = a[i][j] ? h[j] + 1 : 0; cur[j + 1] = a[i][j] ? 1 + std::min({ prv[j], prv[j + 1], cur[j] }) : 0; sq = std::max(sq, cur[j + 1]); } for (int j = 0; j < m; ++j) { while (st.size() && h[st.back()] >= h[j]) st.pop_back(); L[j] = st.empty() ? 0 : st.back() + 1; st.push_back(j); } st.clear(); for (int j = m; j--;) { while (st.size() && h[st.back()] >= h[j]) st.pop_back(); Rr[j] = st.empty() ? m : st.back(); st.push_back(j); } for (int j = 0; j < m; ++j) best = std::max(best, h[j] * (Rr[j] - L[j])); }
    { auto [ar, q] = maximum_rectngle(a); EQ(ar, best); auto [u, x, l, r] = q; if (best) CKM(0 <= u && u < x && x <= n && 0 <= l && l < r && r <= m && (x - u) * (r - l) == best && full(u, x, l, r), "rectangle"); }
    { auto [ar, q] = maximum_square(a); EQ(ar, sq * sq); auto [u, x, l, r] = q; if (sq) CKM(0 <= u && u < x && x <= n && 0 <= l && l < r && r <= m && x - u == sq && r - l == sq && full(u, x, l, r), "square"); }
}
PBT(mo_large, 3, "every case: tens of thousands of ranges") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 100000), q = g.pick({ 1, 300, 20000, 100000 }); auto a = b.vec<int>(n, 0, g.pick({ 30, 100000 })); vector<std::pair<int, int>> qs; for (int i = 0; i < q; ++i) qs.push_back(b.seg(n)); g.note(n, q);
    // distinct values: offline Fenwick
    vector<int> e(q), ord(q), last(100001, -1), F(n + 2); std::iota(ord.begin(), ord.end(), 0); std::sort(ord.begin(), ord.end(), [&](int i, int j) { return qs[i].second < qs[j].second; }); auto upd = [&](int i, int v) { for (++i; i <= n; i += i & -i) F[i] += v; }; auto pre = [&](int i) { int s = 0; for (; i > 0; i &= i - 1) s += F[i]; return s; }; int p = 0; for (int id : ord) { auto [l, r] = qs[id]; for (; p < r; ++p) { if (last[a[p]] >= 0) upd(last[a[p]], -1); upd(last[a[p]] = p, 1); } e[id] = pre(r) - pre(l); }
    vector<int> cnt(100001); int dist = 0; i64 moves = 0; Mo mo(n, qs); auto r = mo.solve([&] { return dist; }, [&](int i) { ++moves; dist += cnt[a[i]]++ == 0; }, [&](int i) { ++moves; dist -= --cnt[a[i]] == 0; }); CKM(r == e, "distinct values in every range"); CKM(moves <= i64(12.0 * (n * std::sqrt(double(q)) + n + q)), "number of moves"); 
}
namespace { using CS = std::pair<i64, vector<i64>>; void cmerge(CS& p, const CS& c) { p.second.push_back(p.first); p.first += c.first; } void cundo(CS& d) { d.first = d.second.back(); d.second.pop_back(); } i64 cget(const CS& d) { return d.first; } }
PBT(offline_connectivity_large, 3, "every case: tens of thousands of operations") {
    // vertices on a cycle-like backbone: a path whose edges are toggled; connectivity of a path is a range question
    Bulk b(g); g.nontrivial(); int n = g.in(20000, 40000), m = 60000; auto p = b.perm(n); OfflineDynamicConnectivity A(n); OfflineDynamicConnectivityComponentSum B; vector<CS> init(n); vector<i64> w(n), pre(n + 1); for (int i = 0; i < n; ++i) w[i] = b.range(-1000000000000LL, 1000000000000LL), init[p[i]].first = w[i], pre[i + 1] = pre[i] + w[i];
    vector<int> mult(n); std::set<int> cut; for (int i = 0; i + 1 < n; ++i) cut.insert(i); vector<bool> ea; vector<std::variant<bool, i64>> eb;
    auto add = [&](int i) { int u = p[i], v = p[i + 1]; if (b.coin()) std::swap(u, v); A.add_query(u, v); B.add_query(v, u); if (!mult[i]++) cut.erase(i); }; for (int i = 0; i + 1 < n; ++i) if (b.raw(50)) add(i);
    int W = g.pick({ 50, 2000, n - 1 });
    for (int t = 0; t < m; ++t) { int base = int(u64(t) * (n - 1 - W) / m), i = base + b.raw(W); switch (b.raw(4)) { case 0: if (mult[i]) { int u = p[i], v = p[i + 1]; if (b.coin()) std::swap(u, v); A.del_query(u, v); B.del_query(v, u); if (!--mult[i]) cut.insert(i); } else add(i); break; case 1: if (mult[i] < 3) add(i); break; case 2: { int j = b.raw(3) ? std::min(n - 1, i + int(b.raw(120))) : b.raw(n), l = std::min(i, j), r = std::max(i, j); auto it = cut.lower_bound(l); bool s = it == cut.end() || *it >= r; A.connectivity_query(p[i], p[j]); B.connectivity_query(p[i], p[j]); ea.push_back(s); eb.emplace_back(s); break; } default: { auto it = cut.lower_bound(i); int r = it == cut.end() ? n : *it + 1, l = it == cut.begin() ? 0 : *std::prev(it) + 1; B.component_sum_query(p[i]); eb.emplace_back(pre[r] - pre[l]); } } }
    CKM(A.answer() == ea, "connectivity answers"); CKM((B.answer<CS, cmerge, cundo, i64, cget>(init) == eb), "sums and connectivity answers");
}
PBT(sat_large, 4, "every case: 10^5 variables") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 150000); vector<char> x(n); for (auto& v : x) v = b.coin(); bool chain = g.coin();
    { TwoSAT s(n); vector<std::array<int, 5>> cs; auto ok = [&](auto& x, auto& c) { bool p = (bool)x[c[1]] == (bool)c[2], q = (bool)x[c[3]] == (bool)c[4]; switch (c[0]) { case 0: return p || q; case 1: return !p || q; case 2: return p; case 3: return !(p && q); default: return p != q; } };
      auto add = [&](std::array<int, 5> c) { auto [k, i, f, j, h] = c; if (k == 0) s.add_clause(i, f, j, h); else if (k == 1) s.implies(i, f, j, h); else if (k == 2) s.set(i, f); else if (k == 3) s.at_most_one(i, f, j, h); else s.exactly_one(i, f, j, h); cs.push_back(c); };
      if (chain) { auto p = b.perm(n); for (int i = 0; i + 1 < n; ++i) add({ 4, p[i], 1, p[i + 1], x[p[i]] == x[p[i + 1]] ? 0 : 1 }); if (g.coin()) add({ 2, p[0], x[p[0]], 0, 0 }); }
      else for (int t = 0; t < 2 * n; ++t) { std::array<int, 5> c{ b.raw(40) ? 0 : b.in(1, 4), b.in(0, n - 1), b.coin(), b.in(0, n - 1), b.coin() }; if (ok(x, c)) add(c); }
      bool un = g.coin(); int u = b.raw(n), v = b.raw(n); if (un) { if (chain) { add({ 4, u, 1, v, x[u] == x[v] ? 1 : 0 }); } else { add({ 2, u, 1, 0, 0 }); add({ 1, u, 1, v, 0 }); add({ 1, v, 0, u, 0 }); } }
      bool sat = s.satisfiable(); if (un) CKM(!sat, "contradiction found"); else { CKM(sat, "planted model"); auto a = s.answer(); EQ((int)a.size(), n); for (auto& c : cs) CKM(ok(a, c), "answer is a model"); } }
    { HornSAT s(n); vector<std::pair<vector<int>, int>> cs; vector<vector<int>> dep(n); vector<int> need; auto p = b.perm(n); // facts reach a prefix of the chain
      vector<vector<int>> by(n); vector<int> st; auto add = [&](vector<int> l, int r) { s.add_clause(l, r, true); int id = cs.size(); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); for (int v : l) by[v].push_back(id); need.push_back(l.size()); cs.emplace_back(l, r); };
      for (int i = 0; i + 1 < n; ++i) if (b.raw(n / 2)) { vector<int> l{ p[i] }; if (i && b.coin()) l.push_back(p[b.raw(i)]); if (!b.raw(30)) l.push_back(p[i]); add(l, p[i + 1]); } add({}, p[0]); for (int t = 0; t < 5; ++t) add({}, p[b.raw(n)]);
      vector<char> m(n); vector<int> q; auto fire = [&](int r) { if (!m[r]) m[r] = 1, q.push_back(r); }; for (auto& [l, r] : cs) if (l.empty()) fire(r); for (size_t h = 0; h < q.size(); ++h) for (int id : by[q[h]]) if (!--need[id]) fire(cs[id].second);
      vector<std::pair<vector<int>, int>> goals; for (int t = 0; t < 1000; ++t) { vector<int> l{ b.in(0, n - 1), b.in(0, n - 1) }; if (m[l[0]] && m[l[1]]) continue; s.add_clause(l, -1, true); goals.emplace_back(l, -1); } bool un = g.coin(); if (un) s.add_clause({ q[b.raw(q.size())] }, -1, true);
      bool sat = s.satisfiable(); CKM(sat == !un, "horn satisfiable"); if (sat) { auto a = s.answer(); EQ((int)a.size(), n); for (auto& [l, r] : cs) { bool t = true; for (int v : l) t &= (bool)a[v]; CKM(!t || a[r], "horn clause"); } for (auto& [l, r] : goals) CKM(!(a[l[0]] && a[l[1]]), "goal clause"); } }
}
PBT(lis_large, 4, "every case: past 2^16 elements") {
    Bulk b(g); g.nontrivial(); int n = big_n(g); int R = g.pick({ 2, 500, 1000000000 }); auto a = b.vec<int>(n, -R, R); if (g.chance(1, 3)) { std::sort(a.begin(), a.end()); if (g.coin()) std::reverse(a.begin(), a.end()); }
    auto chk = [&](auto res, auto ok, bool strict, bool up, const char* nm) { vector<i64> t; for (int v : a) { i64 k = up ? v : -(i64)v; auto it = strict ? std::lower_bound(t.begin(), t.end(), k) : std::upper_bound(t.begin(), t.end(), k); if (it == t.end()) t.push_back(k); else *it = k; } CKM(res.size() == t.size(), nm); for (size_t i = 0; i < res.size(); ++i) { CKM(0 <= res[i] && res[i] < n, nm); if (i) CKM(res[i - 1] < res[i] && ok(a[res[i - 1]], a[res[i]]), nm); } };
    chk(longest_increasing_subsequence(a), std::less<int>(), true, true, "increasing"); chk(longest_nondecreasing_subsequence(a), std::less_equal<int>(), false, true, "nondecreasing"); chk(longest_nonincreasing_subsequence(a), std::greater_equal<int>(), false, false, "nonincreasing"); chk(longest_decreasing_subsequence(a), std::greater<int>(), true, false, "decreasing");
    u64 dp = 1; std::map<int, u64> last; for (int v : a) { u64 o = dp; auto it = last.find(v); dp = 2 * dp - (it == last.end() ? 0 : it->second); last[v] = o; } EQ((number_of_nonempty_subsequences<u64>(a)), dp - 1);
}
PBT(dynamic_hull_large, 3, "every case: thousands of points inserted and erased") {
    Bulk b(g); g.nontrivial(); int n = g.in(10000, 30000), R = 1000000000; vector<std::pair<int, int>> p; int kind = g.in(0, 2); for (int i = 0; i < n; ++i) { if (kind == 0) p.emplace_back(b.in(-R, R), b.in(-R, R)); else if (kind == 1) { int x = b.in(-30000, 30000); p.emplace_back(x, x * x - R + b.in(0, 1)); } else { double t = b.raw(1 << 20) * 6.283185307179586 / (1 << 20); p.emplace_back(int(9e8 * std::cos(t)), int(9e8 * std::sin(t))); } }
    vector<int> xs; for (auto& [x, y] : p) xs.push_back(x); DynamicConvexHullOffline H(xs); std::set<std::pair<int, int>> S; auto ask = [&](int k) { if (S.empty()) return; for (int t = 0; t < k; ++t) { int u = b.in(-R, R), v = b.in(-R, R); if (t % 5 == 0) u = t % 2; i64 mx = INT64_MIN, mn = INT64_MAX; for (auto& [x, y] : S) { i64 s = (i64)u * x + (i64)v * y; mx = std::max(mx, s), mn = std::min(mn, s); } CKM(H.linear_max(u, v) == mx, "linear_max"); CKM(H.linear_min(u, v) == mn, "linear_min"); } };
    for (auto& [x, y] : p) H.insert(x, y), S.emplace(x, y); ask(40);
    // peel: erase everything currently on the hull, several times
    for (int k = 0; k < 5; ++k) { auto h = H.get_hull(); std::set<std::pair<int, int>> hs(h.begin(), h.end()); CKM(hs.size() == h.size(), "no repeated hull point"); int c = 0; for (auto q : hs) { CKM(S.count(q), "hull point is present"); if (++c > (int)p.size() / 8) break; H.erase(q.first, q.second); S.erase(q); } ask(20); }
    b.shuffle(p); for (int i = 0; i < n / 2; ++i) H.erase(p[i].first, p[i].second), S.erase(p[i]); ask(30); for (int i = 0; i < n / 4; ++i) H.insert(p[i].first, p[i].second), S.insert(p[i]); ask(30);
}
