#include "large.hpp"
#include <unordered_map>
#include <unordered_set>
#include <atcoder/string>
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
using namespace hv;
// reference hash modulo 2^61 - 1
struct H61 { static constexpr u64 M = (1ULL << 61) - 1; static u64 mul(u64 a, u64 b) { u128 t = u128(a) * b; u64 r = u64(t & M) + u64(t >> 61); return r >= M ? r - M : r; } std::vector<u64> h, p; int n;
    H61(const std::string& s) : h(s.size() + 1), p(s.size() + 1, 1), n(s.size()) { for (int i = 0; i < n; ++i) { p[i + 1] = mul(p[i], 712367821367123ULL); h[i + 1] = (mul(h[i], 712367821367123ULL) + (unsigned char)s[i] + 1) % M; } }
    u64 get(int l, int r) const { u64 x = h[r] + M - mul(h[l], p[r - l]); return x >= M ? x - M : x; }
    int lcp(int i, int j) const { int lo = 0, hi = n - std::max(i, j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (get(i, i + m) == get(j, j + m)) lo = m; else hi = m - 1; } return lo; } // of suffixes
    int lcs(int i, int j) const { int lo = 0, hi = std::min(i, j); while (lo < hi) { int m = (lo + hi + 1) / 2; if (get(i - m, i) == get(j - m, j)) lo = m; else hi = m - 1; } return lo; } }; // of prefixes [0, i) and [0, j)
static std::vector<int> kmp(const std::string& t, const std::string& p) { std::vector<int> f(p.size() + 1, -1), r; for (size_t i = 0; i < p.size(); ++i) { int k = f[i]; while (k >= 0 && p[k] != p[i]) k = f[k]; f[i + 1] = k + 1; } int k = 0; for (size_t i = 0; i < t.size(); ++i) { while (k >= 0 && (k == (int)p.size() || p[k] != t[i])) k = f[k]; ++k; if (k == (int)p.size()) r.push_back(i + 1 - k); } return r; }
static std::string gs(Gen& g, Bulk& b, int n) { int kind = g.raw(6), al = g.pick(std::vector<int>{ 1, 2, 26 }); g.note("n ", n, " kind ", kind, " alphabet ", al); auto s = b.str(n, kind, al); if (g.coin()) for (int k = g.in(1, 3); k--;) s[b.raw(n)] = 'a' + b.raw(3); return s; }
PBT(matching_large, 4, "every case: more than 2^16 characters") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto s = gs(g, b, n); auto mp = suisen::morris_pratt::morris_pratt(s); H61 h(s); std::vector<int> f(n + 1, -1); for (int i = 0; i < n; ++i) { int k = f[i]; while (k >= 0 && s[k] != s[i]) k = f[k]; f[i + 1] = k + 1; } CK(mp == f); for (bool frag : { false, true }) { std::vector<int> w; for (int p = 1; p <= n; ++p) if ((frag || n % p == 0) && h.get(0, n - p) == h.get(p, n)) w.push_back(p); CK(suisen::morris_pratt::all_periods(s.begin(), s.end(), frag) == w); }
    for (int q = 0; q < 4; ++q) { int l = b.raw(n), k = std::min<int>(n - l, 1 + b.raw(q < 2 ? 5 : n)); auto p = s.substr(l, k); suisen::morris_pratt::MatcherMP<std::string> m(p); CK(m(s) == kmp(s, p)); }
    suisen::Manacher M(s, '#'); std::string rv(s.rbegin(), s.rend()); H61 r(rv); auto ext = [&](int i, int j) { int lo = 0, hi = std::min(n - j, i); while (lo < hi) { int m = (lo + hi + 1) / 2; if (h.get(j, j + m) == r.get(n - i, n - i + m)) lo = m; else hi = m - 1; } return lo; }; for (int i = 0; i < n; ++i) { EQ(M.odd_length(i), 2 * ext(i, i + 1) + 1); EQ(M.even_length(i), 2 * ext(i, i)); }
}
PBT(compare_substring_large, 3, "every case: more than 2^15 characters") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); auto s = gs(g, b, n); H61 h(s); suisen::CompareSubstring<> c(s); auto sg = [](int x) { return x < 0 ? -1 : x > 0; }; auto R = suisen::RollingHash<2>::from_lowercase_alphabet(s);
    for (int q = 0; q < 20000; ++q) { int l1 = b.raw(n + 1), l2 = b.coin() ? int(b.raw(n + 1)) : std::min(n, l1 + int(b.raw(300))), r1 = b.in(l1, n), r2 = b.coin() ? std::min(n, l2 + r1 - l1) : b.in(l2, n); int k = std::min({ h.lcp(l1, l2), r1 - l1, r2 - l2 }); EQ(c.lcp(l1, r1, l2, r2), k); int a = r1 - l1, d = r2 - l2, w = k < a && k < d ? sg(int(s[l1 + k]) - int(s[l2 + k])) : sg(a - d); EQ(sg(c.compare(l1, r1, l2, r2)), w); CK((R(l1, r1) == R(l2, r2)) == (k == a && k == d)); }
}
PBT(run_enumerate_large, 3, "every case: tens of thousands of characters") {
    int n = g.in(20000, 40000); Bulk b(g); g.nontrivial(); auto s = gs(g, b, n); H61 h(s); std::map<std::pair<int, int>, int> w; for (int p = 1; 2 * p <= n; ++p) { int done = -1; for (int i = 0; i + p < n; i += p) { if (i < done) continue; if (s[i] != s[i + p] && (i == 0 || s[i - 1] != s[i + p - 1])) continue; int r = i + p + h.lcp(i, i + p), l = i - h.lcs(i, i + p); if (r - l >= 2 * p) { w.try_emplace({ l, r }, p); done = std::max(done, r - p); } } }
    std::vector<std::tuple<int, int, int>> x, y; for (auto& [k, p] : w) x.emplace_back(k.first, k.second, p); for (auto& q : suisen::run_enumerate(s)) y.emplace_back(q.l, q.r, q.period); EQ(x.size(), y.size()); CKM(sorted(y) == x, "runs differ from the reference");
}
PBT(aho_corasick_large, 3, "every case: tens of thousands of patterns") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); int al = g.pick(std::vector<int>{ 2, 26 }); auto s = b.str(n, g.raw(6), al); std::vector<int> lens; for (int i = 0; i < 12; ++i) lens.push_back(i < 8 ? i + 1 : b.in(10, 3000)); suisen::AhoCorasick<char> a; suisen::AhoCorasickArray<26, 'a'> c; std::map<int, std::unordered_map<u64, int>> tb; size_t tot = 0; std::string cur; while (tot < 200000) { int k = lens[b.raw(12)]; if (k > n) continue; std::string p; if (b.raw(4)) { int l = b.raw(n - k + 1); p = s.substr(l, k); } else p = b.str(k, 5, al); tot += k; a.add(p); c.add(p); ++tb[k][H61(p).get(0, k)]; } a.build(); c.build(); H61 h(s); int x = a.init_state(), y = c.init_state(); for (int i = 0; i < n; ++i) { x = a.next_state(x, s[i]); y = c.next_state(y, s[i]); int w = 0; for (auto& [k, m] : tb) if (i + 1 >= k) { auto it = m.find(h.get(i + 1 - k, i + 1)); if (it != m.end()) w += it->second; } EQ(a.count_suffix_matching(x), w); EQ(c.count_suffix_matching(y), w); }
}
PBT(palindromic_tree_large, 3, "every case: more than 2^15 characters") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); auto s = gs(g, b, n); for (auto& ch : s) ch -= 'a'; H61 h(s); std::string rv(s.rbegin(), s.rend()); H61 r(rv); auto ext = [&](int i, int j) { int lo = 0, hi = std::min(n - j, i); while (lo < hi) { int m = (lo + hi + 1) / 2; if (h.get(j, j + m) == r.get(n - i, n - i + m)) lo = m; else hi = m - 1; } return lo; };
    std::vector<int> L(n, 0); i64 total = 0; for (int i = 0; i < n; ++i) { int o = ext(i, i + 1), e = ext(i, i); total += o + 1 + e; int x = i + o; L[x] = std::max(L[x], 2 * o + 1); if (e) x = i + e - 1, L[x] = std::max(L[x], 2 * e); } for (int i = n - 1; i > 0; --i) L[i - 1] = std::max(L[i - 1], L[i] - 2); for (int i = 0; i < n; ++i) L[i] = std::max(L[i], 1); std::unordered_set<u64> seen; std::vector<int> cnt; for (int i = 0; i < n; ++i) seen.insert(h.get(i + 1 - L[i], i + 1) * 1000003 + L[i]);
    auto go = [&](auto t) { for (int i = 0; i < n; ++i) { int v = t.add(s[i]); EQ(t.length(v), L[i]); int o = t.first_occurence(v); CK(h.get(o, o + L[i]) == h.get(i + 1 - L[i], i + 1)); } EQ((size_t)t.node_num(), seen.size() + 2); i64 z = 0; auto f = t.frequency_table(); for (int v = 2; v < t.node_num(); ++v) z += f[v]; EQ(z, total); }; go(suisen::PalindromicTree<char, std::string>{}); go(suisen::PalindromicTreeArr<char, 26, std::string>{});
}
PBT(suffix_automaton_large, 3, "every case: more than 2^15 characters") {
    int n = big_n(g, 80000); Bulk b(g); g.nontrivial(); auto s = gs(g, b, n); suisen::SuffixAutomaton<char> a(s); auto sa = atcoder::suffix_array(s); auto lc = atcoder::lcp_array(s, sa); i64 dist = (i64)n * (n + 1) / 2; for (int x : lc) dist -= x; i64 got = 0; for (size_t v = 1; v < a.nodes.size(); ++v) got += a.nodes[v].len - a.nodes[a.nodes[v].link].len; EQ(got, dist);
    auto cnt = a.substring_counter(); auto oc = a.occurrence_enumerator(); auto fo = a.first_occurence_searcher(); for (int q = 0; q < 20; ++q) { int l = b.raw(n), k = std::min<int>(n - l, 1 + b.raw(q < 10 ? 12 : n)); auto p = s.substr(l, k); if (q % 4 == 3) p[b.raw(k)] = 'a' + b.raw(3); auto w = kmp(s, p); EQ(a.accept(p), w.size() > 0); EQ(cnt.count(p), (i64)w.size()); CK(sorted(oc.enumerate_all_occurrence(p)) == w); EQ(fo.first_occurrence(p), w.size() ? w[0] : -1); }
    auto t = b.str(3000, g.raw(6), 2); t += s.substr(b.raw(n), 500); auto u = s + '#' + t; auto su = atcoder::suffix_array(u); auto lu = atcoder::lcp_array(u, su); int best = 0; for (size_t i = 0; i + 1 < su.size(); ++i) if ((su[i] < n) != (su[i + 1] < n)) best = std::max(best, lu[i]); auto [x, y, l] = a.longest_common_substring(t); EQ(l, best); CK(s.compare(x, l, t, y, l) == 0);
    suisen::SubstringSet<char> S(s); EQ((i64)S.size(), dist + 1); std::vector<i64> pre{ 1 }; for (int i = 0; i < n; ++i) pre.push_back(pre.back() + n - sa[i] - (i ? lc[i - 1] : 0)); for (int q = 0; q < 30; ++q) { i64 k = b.range(1, dist); int i = std::upper_bound(pre.begin(), pre.end(), k) - pre.begin() - 1; auto w = s.substr(sa[i], (i ? lc[i - 1] : 0) + (k - pre[i]) + 1); CK(S[k] == w); EQ((i64)S.count_lt(w), k); EQ((i64)S.count_leq(w), k + 1); CK(S.contains(w)); }
    for (int q = 0; q < 30; ++q) { int l = b.raw(n); auto t = s.substr(l, 1 + b.raw(q % 2 ? 20 : n - l)); switch (b.raw(3)) { case 0: t[b.raw(t.size())] = 'a' + b.raw(4); break; case 1: t.back() = 'a' + b.raw(6); break; default: t += b.coin() ? 'z' : 'a'; } int i = std::lower_bound(sa.begin(), sa.end(), 0, [&](int x, int) { return s.compare(x, std::string::npos, t) < 0; }) - sa.begin(); i64 w = pre[i]; bool in = false; if (i < n) { int k = 0; while (k < (int)t.size() && sa[i] + k < n && s[sa[i] + k] == t[k]) ++k; in = k == (int)t.size(); w += std::max(0, k - in - (i ? lc[i - 1] : 0)); } EQ((i64)S.count_lt(t), w); EQ((i64)S.count_leq(t), w + in); EQ(S.contains(t), in); }
}
PBT(dynamic_rolling_hash_large, 2, "every case: tens of thousands of elements") {
    using D = suisen::DynamicRollingHash<2>; int n = 40000; D::init_pool(200000); Bulk b(g); g.nontrivial(); auto v = b.vec<int>(n, 1, 2); for (int i = n / 2; i < n; ++i) v[i] = v[i - n / 2]; D d(v); for (int q = 0; q < 1500; ++q) { int m = v.size(); int x = b.in(1, 2); switch (b.raw(6)) { case 0: { int k = b.raw(m + 1); d.insert(k, x); v.insert(v.begin() + k, x); } break; case 1: { int k = b.raw(m); d.erase(k); v.erase(v.begin() + k); } break; case 2: { int k = b.raw(m); d.set(k, x); v[k] = x; } break; default: { int l1 = b.raw(m), l2 = b.coin() ? int(b.raw(m)) : std::max(0, std::min(m - 1, l1 + n / 2 * (b.coin() ? 1 : -1))), k = std::min(m - std::max(l1, l2), int(b.raw(b.coin() ? 30 : m))); bool same = std::equal(v.begin() + l1, v.begin() + l1 + k, v.begin() + l2); EQ(d(l1, l1 + k) == d(l2, l2 + k), same); } } }
}
