#include <bits/stdc++.h>
#include "common.hpp"
#include "library/debug/suffix_automaton.hpp"
#include "library/template.hpp"
using namespace hv; using std::vector; namespace S = suisen;
PBT(floor_ceil, 10000, "inexact division") { i64 R = g.pick({ i64(5), i64(1000), i64(4000000000000000000) }); i64 x = g.edgy(-R, R), y = g.edgy(-R, R); if (!y) y = 1; g.note(x, y); __int128 q = (__int128)x / y, r = (__int128)x % y; __int128 f = q - (r != 0 && ((r < 0) != (y < 0))), c = q + (r != 0 && ((r < 0) == (y < 0))); EQ(S::fld(x, y), (i64)f); EQ(S::cld(x, y), (i64)c); if (R < 2000) { EQ(S::fld((int)x, (int)y), (int)f); EQ(S::cld((int)x, (int)y), (int)c); } EQ(S::pow_m1(x), x % 2 ? -1 : 1); i64 a = x, b = x; CKM(S::chmin(a, y) == (y < x) && a == std::min(x, y) && S::chmax(b, y) == (y > x) && b == std::max(x, y), "chmin, chmax"); g.nontrivial(r != 0); }
PBT(loops, 6000, "at least two iterations") {
    int l = g.in(-8, 8), r = g.in(-8, 12), st = g.in(1, 4); g.note(l, r, st); vector<int> a, b; REP(i, r) a.push_back(i); for (int i = 0; i < r; ++i) b.push_back(i); CKM(a == b, "REP(n)"); a.clear(), b.clear(); REP(i, l, r) a.push_back(i); for (int i = l; i < r; ++i) b.push_back(i); CKM(a == b, "REP(l, r)"); a.clear(); RREP(i, l, r) a.push_back(i); std::reverse(b.begin(), b.end()); CKM(a == b, "RREP(l, r)"); bool two = b.size() >= 2; a.clear(), b.clear(); REP(i, l, r, st) a.push_back(i); for (int i = l; i < r; i += st) b.push_back(i); CKM(a == b, "REP(l, r, step)"); a.clear(); RREP(i, l, r, st) a.push_back(i); std::reverse(b.begin(), b.end()); CKM(a == b, "RREP(l, r, step)"); a.clear(), b.clear(); RREP(i, r) a.push_back(i); for (int i = r - 1; i >= 0; --i) b.push_back(i); CKM(a == b, "RREP(n)"); int c = 0; LOOP(r) ++c; EQ(c, std::max(r, 0)); c = 0; i64 last = 0; REPINF(i, l, st) { last = i; if (++c == 5) break; } CKM(last == l + 4 * st, "REPINF"); vector<i64> L; REP(i, (i64)l, (i64)r) L.push_back(i); EQ((int)L.size(), std::max(0, r - l)); i64 su = 0; FOR(e, L) e *= 2; CFOR(e, L) su += e; EQ(su, std::accumulate(ALL(L), i64(0))); g.nontrivial(two);
}
PBT(helpers, 6000, "repeated keys", 8, 12) {
    int n = g.size(0, 15); auto kv = g.vec(n, 0, 6); vector<int> k(kv.begin(), kv.end()); auto p = S::sorted_indices(n, [&](int i) { return k[i]; }); auto q = S::sorted_indices(n, [&](int i, int j) { return k[i] > k[j]; }); auto isp = [&](vector<int> x) { std::sort(x.begin(), x.end()); for (int i = 0; i < n; ++i) if (x[i] != i) return false; return (int)x.size() == n; }; CKM(isp(p) && isp(q), "permutations"); for (int i = 0; i + 1 < n; ++i) CKM(k[p[i]] <= k[p[i + 1]] && k[q[i]] >= k[q[i + 1]], "sorted_indices"); auto cmp = S::comparator<int>([&](int i) { return -k[i]; }); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CKM(cmp(i, j) == (k[i] > k[j]), "comparator"); auto cg = S::comparator<int>([&](int i) { return k[i]; }, std::greater<>()); auto pq = S::priority_queue_with_comparator<int>(cg); for (int i = 0; i < n; ++i) pq.push(i); int lastk = INT_MIN; while (pq.size()) { CKM(k[pq.top()] >= lastk, "priority queue order"); lastk = k[pq.top()]; pq.pop(); } auto u = k; S::sort_unique_erase(u); std::set<int> s(k.begin(), k.end()); CKM(u == vector<int>(s.begin(), s.end()), "sort_unique_erase"); S::min_priority_queue<int> mn; S::max_priority_queue<int> mx; for (int x : k) mn.push(x), mx.push(x); if (n) CKM(mn.top() == *s.begin() && mx.top() == *s.rbegin(), "priority queues");
    int a = g.in(0, 4), b = g.in(0, 4), c = g.in(0, 4); auto v3 = S::ndvec<int>(S::Dim(a, b, c), 7); CKM((int)v3.size() == a, "ndvec"); for (auto& x : v3) { CKM((int)x.size() == b, "ndvec"); for (auto& y : x) { CKM((int)y.size() == c, "ndvec"); for (int z : y) CKM(z == 7, "ndvec value"); } } auto v1 = S::ndvec<i64>(S::Dim(n)); CKM(v1 == vector<i64>(n, 0), "ndvec default"); CKM(S::Yes == "Yes" && S::No == "No" && S::YES == "YES" && S::NO == "NO", "answers"); g.nontrivial((int)s.size() < n);
}
PBT(automaton_dot, 1500, "at least two characters", 8, 12) {
    int n = g.size(0, 10); std::string s; for (int i = 0; i < n; ++i) s += "ab"[g.in(0, 1)]; S::SuffixAutomaton sa(s); std::string d = S::debug::to_dot(sa, g.coin(), false), e = S::debug::to_dot(sa, true, true); g.note(s, d); CKM(e.size() > d.size() && e.compare(0, 7, "http://") == 0 && d.compare(0, 8, "digraph{") == 0 && d.back() == '}', "envelope");
    // rebuild the transitions from the text: a word is accepted as a path from 0 exactly if it is a substring
    std::map<std::pair<int, char>, int> tr; for (size_t i = 0; (i = d.find("->", i)) != std::string::npos; i += 2) { size_t b = i; while (b && isdigit(d[b - 1])) --b; int u = std::stoi(d.substr(b, i - b)), v = std::stoi(d.substr(i + 2)); size_t br = d.find('[', i); if (d.compare(br, 8, "[label=\"") == 0) { auto ins = tr.emplace(std::make_pair(u, d[br + 8]), v); CKM(ins.second, "deterministic"); } } for (int m = 0; m < (1 << 6); ++m) for (int len = 0; len <= 5; ++len) { if (m >> len) continue; std::string w; for (int i = 0; i < len; ++i) w += "ab"[m >> i & 1]; int q = 0; bool ok = true; for (char c : w) { auto it = tr.find({ q, c }); if (it == tr.end()) { ok = false; break; } q = it->second; } CKM(ok == (s.find(w) != std::string::npos), "drawn automaton accepts the substrings"); } g.nontrivial(n >= 2);
}
