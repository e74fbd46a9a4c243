#include "common.hpp"
#include <variant>
#include <deque>
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/dp/grid_connectivity.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
#include <set>
#include <map>
using namespace hv; using namespace suisen; using std::vector;

PBT(union_area, 6000, "at least two overlapping rectangles", 8, 12) {
    int n = g.size(0, 14); int rep = g.chance(1, 6) ? g.pick({ 30, 130, 260 }) : 1; int R = g.pick({ 2, 5, 12, 20 }); i64 ox = g.pick({ i64(0), i64(-7), i64(1000000000), i64(-1000000000) }), sc = g.pick({ i64(1), i64(1), i64(1000) });
    vector<std::tuple<i64, i64, i64, i64>> rs; vector<std::tuple<int, int, int, int>> ri; bool small = sc == 1 && std::abs(ox) < 100;
    vector<vector<int>> cov(R + 1, vector<int>(R + 1));
    for (int i = 0; i < n; ++i) { int a = g.in(0, R), b = g.in(0, R), c = g.in(0, R), d = g.in(0, R); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); g.note(a, b, c, d); rs.emplace_back(ox + a * sc, ox + b * sc, ox + c * sc, ox + d * sc); ri.emplace_back(a, b, c, d); for (int x = a; x < b; ++x) for (int y = c; y < d; ++y) cov[x][y]++; for (int t = 1; t < rep; ++t) rs.push_back(rs.back()), ri.push_back(ri.back()); }
    i64 ar = 0; bool ov = false; for (auto& v : cov) for (int c : v) ar += c > 0, ov |= c > 1; EQ(area_of_union_of_rectangles(rs), ar * sc * sc); if (small) EQ(area_of_union_of_rectangles(ri), (int)ar); g.nontrivial(ov);
}

PBT(horn_sat, 12000, "has a model other than all-false, or is unsatisfiable") {
    int n = g.in(0, 6), m = g.in(0, 12); HornSAT s(n); struct C { vector<int> l; int r; bool v; }; vector<C> cs;
    auto sat = [&](int mask) { for (auto& c : cs) { bool l = true; for (int x : c.l) l &= mask >> x & 1; bool r = c.r < 0 ? false : (bool)(mask >> c.r & 1) == c.v; if (l && !r) return false; } return true; };
    bool ok0 = true, last = true; int rounds = 0; if (g.chance(1, 8)) { EQ(s.satisfiable(), true); EQ((int)s.answer().size(), n); }
    for (int i = 0; i < m; ++i) { C c; int k = n ? (g.chance(1, 4) ? 0 : g.in(0, 3)) : 0; for (int j = 0; j < k; ++j) c.l.push_back(g.in(0, n - 1)); c.r = n == 0 || g.chance(1, 6) ? -1 : g.in(0, n - 1); c.v = g.chance(3, 4); g.note(c.l, c.r, c.v); if (c.l.empty() && g.coin()) s.add_clause(c.r, c.v); else s.add_clause(c.l, c.r, c.v); cs.push_back(c);
        if (i == m - 1 || g.chance(1, 5)) { rounds++; bool any = false; for (int b = 0; b < 1 << n; ++b) any |= sat(b); last = any; CKM(s.satisfiable() == any, "satisfiable"); if (any) { auto a = s.answer(); int b = 0; for (int x = 0; x < n; ++x) b |= (int)a[x] << x; CKM(sat(b), "answer satisfies the clauses"); ok0 &= b == 0; } } }
    g.nontrivial(!last || !ok0); g.label(last ? "sat" : "unsat");
}

PBT(two_sat, 8000, "at least three clauses") {
    int n = g.in(1, 6), m = g.in(0, 10); TwoSAT s(n); vector<std::array<int, 5>> cs;
    for (int i = 0; i < m; ++i) { int k = g.in(0, 4), x = g.in(0, n - 1), f = g.coin(), y = g.in(0, n - 1), h = g.coin(); g.note(k, x, f, y, h); cs.push_back({ k, x, f, y, h }); if (k == 0) s.add_clause(x, f, y, h); else if (k == 1) s.implies(x, f, y, h); else if (k == 2) s.set(x, f); else if (k == 3) s.at_most_one(x, f, y, h); else s.exactly_one(x, f, y, h); }
    auto sat = [&](int b) { for (auto [k, x, f, y, h] : cs) { bool p = (b >> x & 1) == f, q = (b >> y & 1) == h; bool r = k == 0 ? p || q : k == 1 ? !p || q : k == 2 ? p : k == 3 ? !(p && q) : p != q; if (!r) return false; } return true; };
    bool any = false; for (int b = 0; b < 1 << n; ++b) any |= sat(b); EQ(s.satisfiable(), any); if (any) { auto a = s.answer(); int b = 0; for (int x = 0; x < n; ++x) b |= (int)a[x] << x; CKM(sat(b), "answer is a model"); } g.nontrivial(m >= 3); g.label(any ? "sat" : "unsat");
}

PBT(inversions, 8000, "at least one inversion", 8, 12) { int n = g.size(0, 60); i64 R = g.pick({ i64(1), i64(4), i64(100), i64(4000000000000000000) }); auto a = g.vec(n, -R, R); i64 e = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e += a[i] > a[j]; EQ((i64)inversion_number(vector<i64>(a.begin(), a.end())), e); if (R < 1000) { vector<int> b(a.begin(), a.end()); EQ((i64)inversion_number(b), e); vector<std::string> s; i64 es = 0; for (int x : b) s.push_back(std::string(std::abs(x) % 7, 'a') + "b"); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) es += s[i] > s[j]; EQ((i64)inversion_number(s), es); } g.nontrivial(e > 0); }
PBT(inversions_big, 20, "always") { int n = g.in(60000, 100000); vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = n - i; EQ((i64)inversion_number(a), (i64)n * (n - 1) / 2); g.nontrivial(true); }

PBT(max_rect, 8000, "grid has both set and clear cells", 8, 12) {
    int n = g.size(0, 8), m = g.in(n ? 0 : 0, 8); int d = g.in(0, 8); vector<vector<int>> a(n, vector<int>(m)); bool one = false, zero = false; for (auto& r : a) for (auto& x : r) { x = g.in(0, 8) < d ? (g.chance(1, 5) ? 2 : 1) : 0; (x ? one : zero) = true; }
    for (auto& r : a) g.note(r); vector<std::string> sg; for (auto& r : a) { sg.emplace_back(); for (int x : r) sg.back() += x ? 'x' : '\0'; }
    auto full = [&](int u, int dd, int l, int r) { for (int i = u; i < dd; ++i) for (int j = l; j < r; ++j) if (!a[i][j]) return false; return true; };
    int best = 0, bsq = 0; std::set<std::array<int, 4>> mx; for (int u = 0; u < n; ++u) for (int x = u + 1; x <= n; ++x) for (int l = 0; l < m; ++l) for (int r = l + 1; r <= m; ++r) if (full(u, x, l, r)) { best = std::max(best, (x - u) * (r - l)); if (x - u == r - l) bsq = std::max(bsq, x - u); bool e = (u > 0 && full(u - 1, u, l, r)) || (x < n && full(x, x + 1, l, r)) || (l > 0 && full(u, x, l - 1, l)) || (r < m && full(u, x, r, r + 1)); if (!e) mx.insert({ u, x, l, r }); }
    auto [ar, q] = maximum_rectngle(a); EQ(ar, best); auto [u, x, l, r] = q; if (best) CKM(0 <= u && u < x && x <= n && 0 <= l && l < r && r <= m && (x - u) * (r - l) == best && full(u, x, l, r), "maximum rectangle"); EQ(maximum_rectngle(sg).first, best);
    auto [as, qs] = maximum_square(a); EQ(as, bsq * bsq); { auto [u, x, l, r] = qs; if (bsq) CKM(0 <= u && u < x && x <= n && 0 <= l && l < r && r <= m && x - u == bsq && r - l == bsq && full(u, x, l, r), "maximum square"); } EQ(maximum_square(sg).first, bsq * bsq);
    std::set<std::array<int, 4>> seen; bool valid = true; maximal_rectangles(a, [&](int u, int x, int l, int r) { valid &= 0 <= u && u <= x && x <= n && 0 <= l && l <= r && r <= m && full(u, x, l, r); seen.insert({ u, x, l, r }); }); CKM(valid, "every reported rectangle is full"); for (auto& t : mx) CKM(seen.count(t), "every maximal rectangle is reported"); g.nontrivial(one && zero);
}
PBT(hist_rect, 8000, "at least two distinct heights", 8, 12) {
    int n = g.size(0, 20); i64 R = g.pick({ i64(1), i64(3), i64(10), i64(1000000000000000) }); auto h = g.vec(n, 0, R); vector<i64> a(h.begin(), h.end()); std::set<std::tuple<int, int, i64>> seen; bool valid = true; int calls = 0; maximal_rectangles_hist(a, [&](int l, int r, i64 v) { ++calls; valid &= 0 <= l && l < r && r <= n; if (!valid) return; for (int i = l; i < r; ++i) valid &= a[i] >= v; seen.insert({ l, r, v }); }); CKM(valid, "inside the histogram"); CKM(calls <= n, "linear number of reports");
    for (int l = 0; l < n; ++l) { i64 v = R; for (int r = l + 1; r <= n; ++r) { v = std::min(v, a[r - 1]); if (v > 0 && (l == 0 || a[l - 1] < v) && (r == n || a[r] < v)) CKM(seen.count({ l, r, v }), "every maximal rectangle is reported"); } } g.nontrivial(std::set<i64>(a.begin(), a.end()).size() > 1);
}

PBT(mo, 5000, "at least two non-empty queries", 8, 12) {
    int n = g.size(0, 40), q = g.size(0, 40); auto a = g.vec(n, 0, 5); vector<std::pair<int, int>> qs; int ne = 0; for (int i = 0; i < q; ++i) { auto [l, r] = g.seg(n); qs.emplace_back(l, r); ne += l < r; } g.note(n, qs);
    Mo mo(n, qs); const bool two = g.coin(); std::deque<int> cur; std::map<i64, int> cnt; bool ok = true; std::set<int> ids; auto ev = [&] { int id = mo.get_query_id(); ok &= 0 <= id && id < q && mo.get_range() == qs[id] && mo.get_left() == qs[id].first && mo.get_right() == qs[id].second; ids.insert(id); i64 s = 0; for (auto [v, c] : cnt) s = s * 61 + v * 7 + c; return s; };
    auto add = [&](int i) { ok &= 0 <= i && i < n; if (ok && ++cnt[a[i]] == 0) ok = false; }; auto del = [&](int i) { ok &= 0 <= i && i < n; if (ok) { auto it = cnt.find(a[i]); if (it == cnt.end()) ok = false; else if (--it->second == 0) cnt.erase(it); } };
    vector<i64> res; if (two) res = mo.solve(ev, add, del); else { auto emp = [&] { return cur.empty(); };
        res = mo.solve(ev, [&](int i) { ok &= (emp() || cur.front() == i + 1) && mo.get_left() == i; cur.push_front(i); add(i); }, [&](int i) { ok &= !emp() && cur.front() == i; if (ok) cur.pop_front(), del(i); }, [&](int i) { ok &= (emp() || cur.back() == i - 1) && mo.get_right() == i; cur.push_back(i); add(i); }, [&](int i) { ok &= !emp() && cur.back() == i; if (ok) cur.pop_back(), del(i); }); }
    CKM(ok, "callbacks are consistent with the current range"); EQ((int)res.size(), q); EQ((int)ids.size(), q); for (int i = 0; i < q; ++i) { std::map<i64, int> c; for (int j = qs[i].first; j < qs[i].second; ++j) c[a[j]]++; i64 s = 0; for (auto [v, k] : c) s = s * 61 + v * 7 + k; CKM(res[i] == s, "query answer"); } g.nontrivial(ne >= 2);
}

namespace { struct ND { int n; vector<int> p; ND(int n) : n(n), p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int f(int x) { return p[x] == x ? x : f(p[x]); } void u(int a, int b) { p[f(a)] = f(b); } };
using CS = std::pair<i64, vector<i64>>; void cmerge(CS& p, const CS& c) { p.second.push_back(p.first); p.first += c.first; } void cundo(CS& d) { d.first = d.second.back(); d.second.pop_back(); } i64 cget(const CS& d) { return d.first; } }
PBT(offline_connectivity, 6000, "an edge removed between two queries", 8, 12) {
    int n = g.size(1, 12), m = g.size(0, 50); OfflineDynamicConnectivity a(n); OfflineDynamicConnectivityComponentSum b; vector<CS> init(n); for (auto& x : init) x.first = g.range(-1000000000000, 1000000000000); auto init0 = init;
    std::multiset<std::pair<int, int>> es; vector<bool> ea; vector<std::variant<bool, i64>> eb; bool del = false, nt = false;
    for (int i = 0; i < m; ++i) { int k = g.in(0, 5), u = g.in(0, n - 1), v = g.in(0, n - 1); if (g.chance(1, 24)) { CKM(a.answer() == ea, "answered part-way"); CKM((b.answer<CS, cmerge, cundo, i64, cget>(init) == eb), "answered part-way"); } if (k <= 1) { if (g.chance(1, 4) && es.size()) { auto it = es.begin(); std::advance(it, g.in(0, (int)es.size() - 1)); u = it->first, v = it->second; } g.note("add", u, v); a.add_query(u, v), b.add_query(u, v), es.insert(std::minmax(u, v)); } else if (k == 2) { if (es.empty()) continue; auto it = es.begin(); std::advance(it, g.in(0, (int)es.size() - 1)); u = it->first, v = it->second; if (g.coin()) std::swap(u, v); g.note("del", u, v); es.erase(it); a.del_query(u, v), b.del_query(v, u); del = ea.size() > 0; } else { ND d(n); for (auto [x, y] : es) d.u(x, y); bool s = d.f(u) == d.f(v); nt |= del; g.note("same", u, v, s); a.connectivity_query(u, v); ea.push_back(s); if (k == 5) { i64 t = 0; for (int w = 0; w < n; ++w) if (d.f(w) == d.f(u)) t += init[w].first; b.component_sum_query(u); eb.emplace_back(std::in_place_index<1>, t); } else b.connectivity_query(u, v), eb.emplace_back(std::in_place_index<0>, s); } }
    auto ra = a.answer(); CKM(ra == ea, "connectivity answers"); auto rb = b.answer<CS, cmerge, cundo, i64, cget>(init); CKM(rb == eb, "component sums and connectivity answers"); CKM(init == init0, "initial values untouched"); if (g.chance(1, 4)) { CKM(a.answer() == ea, "asked again"); CKM((b.answer<CS, cmerge, cundo, i64, cget>(init) == eb), "asked again"); } g.nontrivial(nt);
}

PBT(lis, 10000, "length at least 3", 8, 12) {
    int n = g.size(0, 24); int R = g.pick({ 1, 3, 8, 1000 }); auto w = g.vec(n, -R, R); vector<int> a(w.begin(), w.end()); if (g.chance(1, 8)) std::sort(a.begin(), a.end()); g.note(a);
    auto chk = [&](auto res, auto ok, const char* nm) { vector<int> dp(n, 1); int b = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) if (ok(a[j], a[i])) dp[i] = std::max(dp[i], dp[j] + 1); b = std::max(b, dp[i]); } CKM((int)res.size() == b, nm); for (int i = 0; i < (int)res.size(); ++i) { CKM(0 <= res[i] && res[i] < n, nm); if (i) CKM(res[i - 1] < res[i] && ok(a[res[i - 1]], a[res[i]]), nm); } };
    chk(longest_increasing_subsequence(a), std::less<int>(), "increasing"); chk(longest_nondecreasing_subsequence(a), std::less_equal<int>(), "nondecreasing"); chk(longest_nonincreasing_subsequence(a), std::greater_equal<int>(), "nonincreasing"); chk(longest_decreasing_subsequence(a), std::greater<int>(), "decreasing"); g.nontrivial(n >= 3);
}
PBT(subsequences, 3000, "a repeated value") {
    int n = g.size(0, 12); int R = g.pick({ 1, 2, 4, 50 }); auto w = g.vec(n, -R, R); vector<int> a(w.begin(), w.end()); std::set<vector<int>> s; for (int b = 1; b < 1 << n; ++b) { vector<int> t; for (int i = 0; i < n; ++i) if (b >> i & 1) t.push_back(a[i]); s.insert(t); } EQ((number_of_nonempty_subsequences<i64>(a)), (i64)s.size()); EQ((number_of_nonempty_subsequences<unsigned>(a)), (unsigned)s.size()); vector<std::string> st; for (int x : a) st.push_back(std::to_string(x)); EQ((number_of_nonempty_subsequences<i64>(st)), (i64)s.size()); g.nontrivial(std::set<int>(a.begin(), a.end()).size() < a.size());
}
PBT(grid_connectivity, 6000, "three rows and a merge or a forgotten component") {
    int m = g.in(1, 9), n = g.in(1, 6); vector<int> state(m, -1); vector<vector<int>> rows; int tot = 0; bool ev = false; int d = g.in(1, 8);
    auto comp = [&](vector<vector<int>>& id) { int k = rows.size(), c = 0; id.assign(k, vector<int>(m, -1)); for (int i = 0; i < k; ++i) for (int j = 0; j < m; ++j) if (rows[i][j] && id[i][j] < 0) { vector<std::pair<int, int>> st{ { i, j } }; id[i][j] = c; while (st.size()) { auto [x, y] = st.back(); st.pop_back(); for (auto [p, q] : { std::pair<int, int>{ x + 1, y }, { x - 1, y }, { x, y + 1 }, { x, y - 1 } }) if (0 <= p && p < k && 0 <= q && q < m && rows[p][q] && id[p][q] < 0) id[p][q] = c, st.emplace_back(p, q); } c++; } return c; };
    for (int i = 0; i < n; ++i) { vector<int> r(m); int mask = 0; for (int j = 0; j < m; ++j) r[j] = g.in(0, 8) < d, mask |= r[j] << j; g.note(r); rows.push_back(r); auto res = grid_connectivity::transition(state, mask); vector<vector<int>> id; int c = comp(id); std::map<int, int> ren; for (int j = 0; j < m; ++j) { int e = -1; if (r[j]) { auto it = ren.emplace(id[i][j], (int)ren.size()).first; e = it->second; } CKM(res.next_state.size() == (size_t)m && res.next_state[j] == e, "normalised component ids of the frontier"); } EQ(res.frontier_comp_num, (int)ren.size()); tot += res.forget_comp_num; CKM(tot + res.frontier_comp_num == c, "forgotten plus frontier components"); ev |= res.forget_comp_num > 0 || (i && c < (int)ren.size() + 1); state = res.next_state; } g.nontrivial(n >= 3 && ev);
}
