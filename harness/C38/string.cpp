// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
using namespace hv;
static constexpr int n0 = 1 << 11, n1 = 1 << 16, KINDS = 8;
// 0-5 the shared families (one letter ... random); 6: a^m b a^m b ..., 7: a^(n/2) then the mirror of a random half
static std::string text(Bulk& b, int n, int kind) {
    if (kind < 6) return b.str(n, kind, 2);
    std::string s(n, 'a');
    if (kind == 6) { int m = std::max(2, int(std::sqrt(n))); for (int i = m; i < n; i += m + 1) s[i] = 'b'; }
    else { for (int i = n / 2; i < n * 3 / 4; ++i) s[i] = 'a' + b.raw(2); for (int i = n * 3 / 4; i < n; ++i) s[i] = s[n / 2 + (n - 1 - i)]; }
    return s;
}
static std::string name(const char* w, int kind) { return std::string(w) + ", text " + std::to_string(kind); }
PBT(matching_cost, 2, "every case: cost at two sizes compared, eight text families") {
    for (int kind = 0; kind < KINDS; ++kind) {
        grows(g, name("Morris-Pratt", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); auto p = s.substr(0, n / 2); auto q = p; q.back() ^= 1; return cost([&] { K << suisen::morris_pratt::morris_pratt(s) << suisen::morris_pratt::all_periods(s.begin(), s.end(), true); suisen::morris_pratt::MatcherMP<std::string> m(p), m2(q); K << m(s) << m2(s); }); }, 1.8);
        grows(g, name("Manacher", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); return cost([&] { suisen::Manacher m(s, '#'); K << m.odd_length(0); }); }, 1.8);
        grows(g, name("rolling hash", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); return cost([&] { auto r = suisen::RollingHash<2>::from_lowercase_alphabet(s); for (int i = 0; i < n; ++i) K << r(i / 2, i); }); }, 1.8);
        grows(g, name("substring comparison", kind), o_nlog2, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); return cost([&] { suisen::CompareSubstring<> c(s); for (int i = 0; i < n; ++i) { int l = b.raw(n), m = b.raw(n); K << c.lcp(l, n, m, n) << c.compare(l, n, m, n); } }); });
        grows(g, name("runs", kind), o_nlog, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); return cost([&] { K << suisen::run_enumerate(s); }); });
    }
}
PBT(palindromic_cost, 2, "every case: cost at two sizes compared, eight text families") {
    for (int kind = 0; kind < KINDS; ++kind) grows(g, name("palindromic trees", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); for (auto& c : s) c -= 'a'; return cost([&] { suisen::PalindromicTree<char, std::string> t; suisen::PalindromicTreeArr<char, 26, std::string> u; for (char c : s) t.add(c), u.add(c); K << t.frequency_table() << u.frequency_table(); }); }, 1.8);
}
PBT(automaton_cost, 2, "every case: cost at two sizes compared, eight text families") {
    for (int kind = 0; kind < KINDS; ++kind) {
        grows(g, name("suffix automaton", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); auto t = text(b, n, (kind + 1) % KINDS); return cost([&] { suisen::SuffixAutomaton<char> a(s); auto c = a.substring_counter(); auto f = a.first_occurence_searcher(); for (int i = 0; i < n; i += 16) { auto p = s.substr(i, 16); K << c.count(p) << f.first_occurrence(p); } K << a.longest_common_substring(t); }); }, 1.8);
        grows(g, name("substring set", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); return cost([&] { suisen::SubstringSet<char> a(s); K << a.size(); for (int i = 0; i < n; i += 16) K << a.count_lt(s.substr(i, 16)); }); }, 1.8);
        grows(g, name("Aho-Corasick", kind), o_n, n0, n1, [=](int n, Bulk& b) { auto s = text(b, n, kind); std::vector<std::string> ps; for (int k = 1, t = 0; t + k < n; t += k, ++k) ps.push_back(s.substr(b.raw(n - k), k)); ps.push_back(std::string(n / 4, 'a')); ps.push_back(std::string(n / 4, 'a') + 'b'); return cost([&] { suisen::AhoCorasick<char> a; suisen::AhoCorasickArray<26, 'a'> c; for (auto& p : ps) a.add(p), c.add(p); a.build(); c.build(); int x = a.init_state(), y = c.init_state(); for (char ch : s) x = a.next_state(x, ch), y = c.next_state(y, ch), K << a.count_suffix_matching(x) << c.count_suffix_matching(y); }); }, 1.8);
    }
}
PBT(dynamic_rolling_hash_cost, 2, "every case: cost at two sizes compared") {
    using D = suisen::DynamicRollingHash<2>; D::init_pool(200000);
    grows(g, "dynamic rolling hash", o_nlog, n0, 1 << 15, [=](int n, Bulk& b) { std::vector<int> v(n, 1); return cost([&] { D d(v); for (int i = 0; i < n; ++i) { int l = b.raw(n), m = b.raw(n), k = n - std::max(l, m); d.set(l, 1 + i % 3); K << (d(l, l + k) == d(m, m + k)); } }); });
}
