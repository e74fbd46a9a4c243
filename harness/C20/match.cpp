#include "common.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/run_enumerate.hpp"
using namespace hv;
// strings rich in repetitions: random, periodic, Fibonacci-like, palindromic
static std::string gs(Gen& g, int lo, int hi, char base = 'a') { int n = g.len(lo, hi), k = g.in(1, 3); std::string s(n, base); switch (g.raw(5)) { case 0: for (auto& c : s) c = base + g.raw(k); break; case 1: { int p = g.in(1, 5); std::string q(p, base); for (auto& c : q) c = base + g.raw(k); for (int i = 0; i < n; ++i) s[i] = q[i % p]; for (int e = g.in(0, 2); e-- && n;) s[g.raw(n)] = base + g.raw(k); break; } case 2: { std::string a(1, base), b(1, base + 1); while ((int)a.size() < n) { auto c = a + b; b = a; a = c; } s = a.substr(0, n); break; } case 3: for (auto& c : s) c = base + g.raw(k); for (int i = 0; i < n / 2; ++i) s[n - 1 - i] = s[i]; break; default: if (n && g.coin()) s[g.raw(n)] = base + 1; } return s; }
static int occ_ending(const std::vector<std::string>& ps, const std::string& t, int e) { int c = 0; for (auto& p : ps) if ((int)p.size() <= e && t.compare(e - p.size(), p.size(), p) == 0) ++c; return c; }
PBT(aho_corasick, 5000, "at least two patterns matching at one position", 8, 15) {
    std::vector<std::string> ps; for (int i = g.in(0, 6); i--;) ps.push_back(gs(g, 1, 5)); if (ps.size() && g.chance(1, 4)) ps.push_back(g.pick(ps)); g.note(ps); suisen::AhoCorasick<char> a; suisen::AhoCorasickArray<3, 'a'> b; for (auto& p : ps) b.add(p); b.build();
    size_t split = g.chance(1, 3) ? g.raw(ps.size() + 1) : ps.size(); auto run = [&](size_t k) { std::vector<std::string> q(ps.begin(), ps.begin() + k); std::string t = gs(g, 0, 14); for (auto& p : q) if (g.coin()) t += p; a.build(); int st = a.init_state(); EQ(a.count_suffix_matching(st), occ_ending(q, t, 0)); for (int i = 0; i < (int)t.size(); ++i) { st = a.next_state(st, t[i]); int w = occ_ending(q, t, i + 1); EQ(a.count_suffix_matching(st), w); g.nontrivial(w >= 2); } }; size_t i = 0; for (; i < split; ++i) a.add(ps[i]); run(split); if (split < ps.size()) { for (; i < ps.size(); ++i) a.add(ps[i]); run(ps.size()); } if (g.chance(1, 4)) run(ps.size());
    { std::string t = gs(g, 0, 14); for (auto& p : ps) if (g.coin()) t += p; int st = b.init_state(); std::set<std::string> pre{ "" }; for (auto& p : ps) for (size_t k = 1; k <= p.size(); ++k) pre.insert(p.substr(0, k)); EQ(b.state_num(), (int)pre.size()); EQ(b.count_suffix_matching(st), occ_ending(ps, t, 0)); for (int i = 0; i < (int)t.size(); ++i) { st = b.next_state(st, t[i]); EQ(b.count_suffix_matching(st), occ_ending(ps, t, i + 1)); } }
}
struct MN : suisen::MapTrieNode<int> { int cnt = 0; }; struct MU : suisen::MapTrieNode<int, false> { int cnt = 0; }; struct AN : suisen::ArrayTrieNode<3, 'a'> { int cnt = 0; }; struct AP : suisen::ArrayTrieNodeWithParentLink<3, 'a'> { int cnt = 0; using suisen::ArrayTrieNodeWithParentLink<3, 'a'>::ArrayTrieNodeWithParentLink; };
template <class Tr, class Step> static void trie(Gen& g, Tr& t, Step step, bool par) {
    std::map<std::string, int> m; std::vector<std::string> ps; for (int i = g.in(0, 7); i--;) { auto s = ps.size() && g.coin() ? g.pick(ps).substr(0, g.in(0, 3)) + gs(g, 0, 3) : gs(g, 0, 6); ps.push_back(s); ++t.add(s).cnt; ++m[s]; } std::set<std::string> pre{ "" }; for (auto& p : ps) for (size_t k = 1; k <= p.size(); ++k) pre.insert(p.substr(0, k)); EQ(t.nodes.size(), pre.size()); for (auto& p : pre) { int c = 0; for (char x : p) { c = step(t, c, x); CK(c > 0); } EQ(t[c].cnt, m.count(p) ? m[p] : 0); for (char x = 'a'; x < 'd'; ++x) EQ(step(t, c, x) >= 0, pre.count(p + x) > 0); }
    if (pre.size() > 1 && g.coin()) { auto it = pre.begin(); std::advance(it, g.raw(pre.size())); int c = 0; for (char x : *it) c = step(t, c, x); auto s = gs(g, 0, 4); auto& nd = t.add(s, c); int d = 0; for (char x : *it + s) d = step(t, d, x); CK(&nd == &t.nodes[d]); } if constexpr (std::is_base_of_v<suisen::ArrayTrieNodeWithParentLink<3, 'a'>, typename Tr::node_type>) for (int i = 1; i < (int)t.nodes.size(); ++i) EQ(t[t[i].par][t[i].key], i); g.nontrivial(pre.size() >= 5 && ps.size() >= 3);
}
PBT(tries, 4000, "at least 3 words and 5 nodes", 8, 15) {
    auto ms = [](const auto& t, int c, char x) { return t[c][(int)x]; }; auto as = [](const auto& t, int c, char x) { return t[c][x - 'a']; }; switch (g.raw(4)) { case 0: { suisen::MapTrie<MN> t; trie(g, t, ms, false); break; } case 1: { suisen::MapTrie<MU> t; if (g.coin()) t.reserve(3); trie(g, t, ms, false); break; } case 2: { suisen::ArrayTrie<AN> t; if (g.coin()) t.reserve(3); trie(g, t, as, false); break; } default: { suisen::ArrayTrie<AP> t; trie(g, t, as, true); } }
}
PBT(morris_pratt, 6000, "a string of length at least 6 with a proper border, or two overlapping occurrences", 8, 15) {
    using namespace suisen::morris_pratt; auto s = gs(g, 0, 14); int n = s.size(); g.note(s); auto mp = g.coin() ? morris_pratt(s) : morris_pratt(s.begin(), s.end()); EQ((int)mp.size(), n + 1); EQ(mp[0], -1); for (int i = 1; i <= n; ++i) { int b = i - 1; while (s.compare(0, b, s, i - b, b)) --b; EQ(mp[i], b); }
    if (n) { bool frag = g.coin(); std::vector<int> w; for (int p = 1; p <= n; ++p) { bool ok = frag || n % p == 0; for (int i = 0; i + p < n; ++i) if (s[i] != s[i + p]) ok = false; if (ok) w.push_back(p); } EQ(all_periods(s.begin(), s.end(), frag), w); EQ(min_period(s, frag), s.substr(0, w[0])); std::vector<int> v(s.begin(), s.end()); auto mv = min_period(v, frag); EQ((int)mv.size(), w[0]); g.nontrivial(n >= 6 && w.size() >= 2); }
    auto p = g.coin() && n ? s.substr(g.raw(n), g.in(1, 4)) : gs(g, 1, 4); if (p.size()) { auto t = gs(g, 0, 16); for (int k = g.in(0, 3); k--;) t.insert(g.raw(t.size() + 1), p); if (g.chance(1, 6)) { for (auto& c : t) if (c == 'b') c = 0; for (auto& c : p) if (c == 'b') c = 0; } std::vector<int> w; for (size_t i = 0; i + p.size() <= t.size(); ++i) if (t.compare(i, p.size(), p) == 0) w.push_back(i); MatcherMP<std::string> m(p); EQ(m(t), w); EQ(m.enumerate_occurences(t), w); std::vector<int> pv(p.begin(), p.end()), tv(t.begin(), t.end()); EQ(MatcherMP<std::vector<int>>(pv)(tv), w); for (size_t i = 1; i < w.size(); ++i) g.nontrivial(w[i] - w[i - 1] < (int)p.size()); }
}
PBT(manacher, 5000, "a palindrome of length at least 4", 8, 12) {
    auto s = gs(g, 0, 20); int n = s.size(); g.note(s); std::vector<int> v(s.begin(), s.end()); suisen::Manacher m = g.coin() ? suisen::Manacher(s, '#') : suisen::Manacher(v, -1); for (int i = 0; i < n; ++i) { int r = 0; while (i - r - 1 >= 0 && i + r + 1 < n && s[i - r - 1] == s[i + r + 1]) ++r; EQ(m.odd_length(i), 2 * r + 1); EQ(m[2 * i + 1], 2 * r + 1); g.nontrivial(r >= 2); } for (int i = 0; i <= n; ++i) { int r = 0; while (i - r - 1 >= 0 && i + r < n && s[i - r - 1] == s[i + r]) ++r; EQ(m.even_length(i), 2 * r); EQ(m[2 * i], 2 * r); g.nontrivial(r >= 2); }
}
PBT(compare_substring, 4000, "at least 6 characters with a common prefix of at least 2", 8, 12) {
    auto s = gs(g, 1, 18); int n = s.size(); g.note(s); using CS = suisen::CompareSubstring<>; auto mk = [&]() { switch (g.raw(3)) { case 0: return CS(s); case 1: return CS(std::vector<int>(s.begin(), s.end())); default: { std::vector<int> v; for (char c : s) v.push_back(c - 'a'); return CS(v, 3); } } }; CS c = mk(); auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
    for (int q = g.in(1, 12); q--;) { int l1 = g.raw(n + 1), r1 = g.range(l1, n), l2 = g.raw(n + 1), r2 = g.range(l2, n); auto a = s.substr(l1, r1 - l1), b = s.substr(l2, r2 - l2); int k = 0; while (k < (int)std::min(a.size(), b.size()) && a[k] == b[k]) ++k; g.note("[", l1, ",", r1, ") [", l2, ",", r2, ")"); EQ(c.lcp(l1, r1, l2, r2), k); EQ(c.lcp({ l1, r1 }, { l2, r2 }), k); int w = sg(a.compare(b)); EQ(sg(c.compare(l1, r1, l2, r2)), w); EQ(sg(c(l1, r1, l2, r2)), w); EQ(sg(c.compare({ l1, r1 }, { l2, r2 })), w); EQ(sg(c(std::pair<int, int>(l1, r1), std::pair<int, int>(l2, r2))), w); auto x = c.substr(l1, r1), y = c.substr(std::pair<int, int>(l2, r2)); EQ(x.size(), r1 - l1); EQ(x.lcp(y), k); EQ(sg(x.compare(y)), w); EQ(x == y, w == 0); EQ(x != y, w != 0); EQ(x < y, w < 0); EQ(x <= y, w <= 0); EQ(x > y, w > 0); EQ(x >= y, w >= 0); g.nontrivial(n >= 6 && k >= 2 && l1 != l2); }
}
PBT(run_enumerate, 5000, "at least 3 runs", 8, 20) {
    auto s = gs(g, 0, g.chance(1, 4) ? 40 : 18); int n = s.size(); g.note(s); std::vector<std::tuple<int, int, int>> w; for (int l = 0; l < n; ++l) for (int p = 1; l + 2 * p <= n; ++p) { int r = l + p; while (r < n && s[r] == s[r - p]) ++r; if (r - l < 2 * p || (l > 0 && s[l - 1] == s[l - 1 + p])) continue; bool minp = true; for (int q = 1; q < p; ++q) { bool ok = true; for (int i = l; i + q < r; ++i) if (s[i] != s[i + q]) ok = false; if (ok) minp = false; } if (minp) w.emplace_back(l, r, p); }
    auto chk = [&](auto r) { std::vector<std::tuple<int, int, int>> x; for (auto& q : r) x.emplace_back(q.l, q.r, q.period); EQ(x.size(), w.size()); CKM(sorted(x) == sorted(w), "runs differ from brute force"); for (size_t i = 1; i < r.size(); ++i) { CK(r[i] != r[i - 1]); CK((r[i] < r[i - 1]) != (r[i - 1] < r[i])); } }; if (g.coin()) chk(suisen::run_enumerate(s)); else { std::vector<int> v(s.begin(), s.end()); chk(suisen::run_enumerate(v)); } g.nontrivial(w.size() >= 3);
}
