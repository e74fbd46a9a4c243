#include "common.hpp"
#include <atcoder/modint>
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
using namespace hv;
static std::string gs(Gen& g, int lo, int hi, char base = 'a') { int n = g.len(lo, hi), k = g.in(1, 3); std::string s(n, base); switch (g.raw(5)) { case 0: for (auto& c : s) c = base + g.raw(k); break; case 1: { int p = g.in(1, 5); std::string q(p, base); for (auto& c : q) c = base + g.raw(k); for (int i = 0; i < n; ++i) s[i] = q[i % p]; for (int e = g.in(0, 2); e-- && n;) s[g.raw(n)] = base + g.raw(k); break; } case 2: { std::string a(1, base), b(1, base + 1); while ((int)a.size() < n) { auto c = a + b; b = a; a = c; } s = a.substr(0, n); break; } case 3: for (auto& c : s) c = base + g.raw(k); for (int i = 0; i < n / 2; ++i) s[n - 1 - i] = s[i]; break; default: if (n && g.coin()) s[g.raw(n)] = base + 1; } return s; }
static bool pal(const std::string& s, int l, int r) { while (l < r - 1) if (s[l++] != s[--r]) return false; return true; }
static int count_occ(const std::string& s, const std::string& p) { int c = 0; for (size_t i = 0; i + p.size() <= s.size(); ++i) c += s.compare(i, p.size(), p) == 0; return c; }
template <class Tr, class Child> static void ptree(Gen& g, Tr& t, Child child, int hi) {
    if (g.chance(1, 4)) { t.add_all(gs(g, 0, 10, 0)); t.clear(); if (g.coin()) t.shrink_to_fit(); } auto s = gs(g, 0, hi, 0); int n = s.size(); g.note(std::vector<int>(s.begin(), s.end())); std::vector<int> lsp; for (int i = 0; i < n; ++i) lsp.push_back(t.add(s[i])); std::map<std::string, int> id; std::map<std::string, int> mult; EQ(t.length(0), -1); EQ(t.length(1), 0); EQ(t.suffix_link(0), 0); EQ(t.suffix_link(1), 0); id[""] = 1; for (int v = 2; v < t.node_num(); ++v) { int l = t.first_occurence(v), k = t.length(v); CK(l >= 0 && k >= 1 && l + k <= n); auto p = s.substr(l, k); CK(pal(p, 0, k)); EQ((int)s.find(p), l); CKM(id.emplace(p, v).second, "two nodes for one palindrome"); auto gp = t.get_palindrome(v); CK(std::string(gp.begin(), gp.end()) == p); }
    std::set<std::string> all; for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; ++r) if (pal(s, l, r)) all.insert(s.substr(l, r - l)); EQ(t.node_num(), (int)all.size() + 2); for (int i = 0; i < n; ++i) { int l = 0; while (!pal(s, l, i + 1)) ++l; auto p = s.substr(l, i + 1 - l); EQ(lsp[i], id[p]); ++mult[p]; } auto fr = t.frequency_table(); auto par = t.parents(); for (auto& p : all) { int v = id[p]; EQ(t.node_multiplicity(v), mult[p]); EQ(fr[v], count_occ(s, p)); int k = p.size(), b = k - 1; while (!pal(p, k - b, k)) --b; EQ(t.suffix_link(v), b ? id[p.substr(k - b)] : 1); CK(t.suffix_link(v) < v); int pr = k == 1 ? 0 : id[p.substr(1, k - 2)]; EQ(par[v], pr); EQ(child(t, pr, p[0]), v); for (int c = 0; c < 4; ++c) { auto q = std::string(1, c) + p + std::string(1, c); EQ(child(t, v, c), all.count(q) ? id[q] : -1); } } EQ(par[0], -1); EQ(par[1], -1); g.nontrivial(all.size() >= 6);
}
PBT(palindromic_tree, 5000, "at least 6 distinct palindromes", 8, 60) {
    auto mc = [](auto& t, int v, int c) { auto& m = t.children(v); auto it = m.find(c); return it == m.end() ? -1 : it->second; }; auto vc = [](auto& t, int v, int c) { auto& m = t.children(v); return c < (int)m.size() ? (int)m[c] : -1; }; switch (g.raw(5)) { case 0: { suisen::PalindromicTree<char, std::string> t; ptree(g, t, mc, 20); break; } case 1: { suisen::PalindromicTree<int> t; ptree(g, t, mc, 20); break; } case 2: { suisen::PalindromicTreeVec<int> t; ptree(g, t, vc, 20); break; } case 3: { suisen::PalindromicTreeArr<int, 4> t; ptree(g, t, vc, 20); break; } default: { suisen::PalindromicTreeArr<char, 4, std::string> t; ptree(g, t, vc, 20); } }
}
PBT(palindromic_tree_long, 40, "at least 130 distinct palindromes") { auto vc = [](auto& t, int v, int c) { auto& m = t.children(v); return c < (int)m.size() ? (int)m[c] : -1; }; suisen::PalindromicTreeArr<char, 4, std::string> t; int n = g.in(100, 200); std::string s(n, 0); if (g.coin()) s[g.raw(n)] = 1; int mx = 0; for (char c : s) t.add(c); std::set<std::string> all; for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; ++r) if (pal(s, l, r)) all.insert(s.substr(l, r - l)); EQ(t.node_num(), (int)all.size() + 2); auto fr = t.frequency_table(); for (int v = 2; v < t.node_num(); v += 7) { auto p = t.get_palindrome(v); EQ(fr[v], count_occ(s, std::string(p.begin(), p.end()))); } g.nontrivial(all.size() >= 130); }
template <class RH> static void rh_eq(Gen& g, RH h, const std::string& s) { int n = s.size(); for (int q = g.in(1, 10); q--;) { int l1 = g.raw(n + 1), r1 = g.range(l1, n), l2 = g.raw(n + 1), r2 = g.coin() ? std::min(n, l2 + r1 - l1) : (int)g.range(l2, n); bool same = s.substr(l1, r1 - l1) == s.substr(l2, r2 - l2); EQ(h(l1, r1) == h(l2, r2), same); EQ(h.concat(h(l1, r1), l2, r2) == h.concat(h(l2, r2), l1, r1), s.substr(l1, r1 - l1) + s.substr(l2, r2 - l2) == s.substr(l2, r2 - l2) + s.substr(l1, r1 - l1)); int m = g.range(l1, r1); CK(h.concat(h(l1, m), m, r1) == h(l1, r1)); g.nontrivial(same && l1 != l2 && r1 - l1 >= 2); } }
template <class RH> static void letters(RH (*f)(const std::string&), std::string s) { RH h = f(s); std::set<decltype(h(0, 1))> x; for (int i = 0; i < (int)s.size(); ++i) { x.insert(h(i, i + 1)); CKM(!(h(i, i + 1) == h(0, 0)), "a letter hashes as nothing"); } CKM(x.size() == s.size(), "two letters share a hash"); }
PBT(rolling_hash_letters, 3, "always") { std::string a, A, d; for (int i = 0; i < 26; ++i) a += char('a' + i), A += char('A' + i); for (int i = 0; i < 10; ++i) d += char('0' + i); using R = suisen::RollingHash<2>; letters<R>(R::from_lowercase_alphabet, a); letters<R>(R::from_uppercase_alphabet, A); letters<R>(R::from_alphabet, a + A); letters<R>(R::from_digit, d); g.nontrivial(); }
PBT(rolling_hash, 4000, "two equal substrings of length at least 2 at different places", 8, 12) {
    auto s = gs(g, 0, 18); g.note(s); int n = s.size(); switch (g.raw(6)) { case 0: rh_eq(g, suisen::RollingHash<1>::from_lowercase_alphabet(s), s); break; case 1: { for (auto& c : s) c -= 32; rh_eq(g, suisen::RollingHash<2>::from_uppercase_alphabet(s), s); break; } case 2: { for (auto& c : s) if (g.coin()) c -= 32; rh_eq(g, suisen::RollingHash<2>::from_alphabet(s), s); break; } case 3: { for (auto& c : s) c = c - 'a' + '0'; rh_eq(g, suisen::RollingHash<1>::from_digit(s), s); break; } case 4: { std::vector<int> a(s.begin(), s.end()); rh_eq(g, suisen::RollingHash<1>(a), s); break; }
    default: { using M = atcoder::modint998244353; using RH = suisen::RollingHash<2, M>; u64 b[2] = { g.u64any() % P, g.u64any() % P }; RH::set_bases({ M(b[0]), M(b[1]) }); auto a = g.vec<int>(n, 0, 1000000); RH h(a); EQ((u64)RH::mod(), P); for (int q = g.in(1, 6); q--;) { auto [l, r] = g.seg(n); auto x = h(l, r); u64 st[2] = { g.raw(P), g.raw(P) }; auto y = h.concat({ st[0], st[1] }, l, r); for (int k = 0; k < 2; ++k) { u64 w = 0, z = st[k]; for (int i = l; i < r; ++i) w = (w * b[k] + a[i]) % P, z = (z * b[k] + a[i]) % P; EQ(x[k], w); EQ(y[k], z); } g.nontrivial(r - l >= 3); } } }
}
static Z hv_add(Z a, Z b) { return a + b; }
static Z hv_zero() { return 0; }
static Z hv_neg(Z a) { return -a; }
static Z hv_mul(Z a, Z b) { return a * b; }
static Z hv_one() { return 1; }
PBT(rolling_hash_field, 4000, "a substring of length at least 3 after changing the bases", 8, 12) {
    using RF = suisen::RollingHashField<Z, 2, hv_add, hv_zero, hv_neg, hv_mul, hv_one>; Z b[2] = { (i64)g.range(100, P - 1), (i64)g.range(100, P - 1) }; RF::set_bases({ b[0], b[1] }); auto s = gs(g, 0, 18); int n = s.size(); g.note(s, " bases ", b[0], " ", b[1]); std::array<std::function<Z(char)>, 2> hs{ [](char c) { return Z(c - 'a' + 1); }, [](char c) { return Z((c - 'a') * 31 + 7); } }; auto h = RF::create(s, hs); auto f = [&](const std::string& t) { std::array<Z, 2> r; for (int k = 0; k < 2; ++k) for (char c : t) r[k] = r[k] * b[k] + hs[k](c); return r; };
    for (int q = g.in(1, 8); q--;) { auto [l, r] = g.seg(n); auto t = s.substr(l, r - l); CK(h(l, r) == f(t)); auto u = gs(g, 0, 25); auto fu = f(u); auto ft = f(t); CK(RF::concat(ft, fu, u.size()) == f(t + u)); std::array<Z, 2> sum{ fu[0] + ft[0], fu[1] + ft[1] }; CK(RF::pointwise_add(fu, ft) == sum); int p = g.raw(n + 1), o = g.raw(n + 1), k = 0; while (p + k < n && o + k < n && s[p + k] == s[o + k]) ++k; EQ(h.lcp(p, o), k); g.nontrivial(r - l >= 3); }
}
template <int B> static void drh(Gen& g) { using D = suisen::DynamicRollingHash<B>; D::init_pool(400); // (also resets the pool)
    std::vector<int> a = g.vec<int>(g.size(0, 10), 1, 2); bool built = g.coin(); if (!built) a.clear(); D d = built ? D(a) : D(); for (int q = g.size(1, 16); q--;) { int n = a.size(), x = g.in(1, 2); switch (g.raw(8)) { case 0: if (n) { int k = g.raw(n); d.set(k, x); a[k] = x; } break; case 1: { int k = g.raw(n + 1); d.insert(k, x); a.insert(a.begin() + k, x); break; } case 2: d.push_back(x); a.push_back(x); break; case 3: d.push_front(x); a.insert(a.begin(), x); break; case 4: if (n) { int k = g.raw(n); d.erase(k); a.erase(a.begin() + k); } break; case 5: if (n && g.coin()) { d.pop_back(); a.pop_back(); } else if (n) { d.pop_front(); a.erase(a.begin()); } break;
        default: { int l1 = g.raw(n + 1), r1 = g.range(l1, n), l2 = g.raw(n + 1), r2 = g.coin() ? std::min(n, l2 + r1 - l1) : (int)g.range(l2, n); bool same = std::vector<int>(a.begin() + l1, a.begin() + r1) == std::vector<int>(a.begin() + l2, a.begin() + r2); g.note(a, " [", l1, ",", r1, ") [", l2, ",", r2, ")"); EQ(d(l1, r1) == d(l2, r2), same); g.nontrivial(same && l1 != l2 && r1 - l1 >= 2); } } }
    D e(a); int n = a.size(); for (int q = 12; q--;) { int l1 = g.raw(n + 1), r1 = g.range(l1, n), l2 = g.raw(n + 1), r2 = std::min(n, l2 + r1 - l1); bool same = std::vector<int>(a.begin() + l1, a.begin() + r1) == std::vector<int>(a.begin() + l2, a.begin() + r2); EQ(d(l1, r1) == d(l2, r2), same); g.nontrivial(same && l1 != l2 && r1 - l1 >= 2); } for (int q = 3; q--;) { auto [l, r] = g.seg(n); CKM(d(l, r) == e(l, r), "hash depends on how the sequence was built"); } }
PBT(dynamic_rolling_hash, 4000, "two equal substrings of length at least 2 at different places", 2, 12) { if (g.coin()) drh<1>(g); else drh<2>(g); }
template <class SA, class Seq> static void sauto(Gen& g, const std::string& s, std::function<Seq(const std::string&)> cv) {
    int n = s.size(); SA a = g.coin() ? SA(cv(s)) : SA(); if (a.nodes.size() == 1 && n) for (size_t i = 0; i < s.size(); ++i) { auto c = cv(s.substr(i, 1)); if (g.coin()) a += c[0]; else a.append(c[0]); }
    auto cnt = a.substring_counter(); auto oc = a.occurrence_enumerator(); auto fo = a.first_occurence_searcher(); auto lt = a.suffix_link_tree(); EQ(lt.size(), (int)a.nodes.size()); CK((int)a.nodes.size() <= std::max(1, 2 * n)); auto to = a.topological_order(g.chance(1, 100)); EQ((int)to.size(), lt.size());
    for (int q = g.in(1, 10); q--;) { auto p = g.coin() && n ? s.substr(g.raw(n), g.in(0, 6)) : gs(g, 0, 4); if (g.chance(1, 4) && p.size()) p[g.raw(p.size())] = 'a' + g.raw(3); g.note("pattern ", p); std::vector<int> w; for (size_t i = 0; i + p.size() <= s.size(); ++i) if (s.compare(i, p.size(), p) == 0) w.push_back(i); auto v = cv(p); EQ(a.accept(v), w.size() > 0); EQ(a.transition(v) >= 0, w.size() > 0); EQ(cnt.count(v), (i64)w.size()); EQ(sorted(oc.enumerate_all_occurrence(v)), w); EQ(fo.first_occurrence(v), w.size() ? w[0] : -1); g.nontrivial(w.size() >= 2 && p.size() >= 2); }
    auto t = gs(g, 0, 12); if (n && g.coin()) t.insert(g.raw(t.size() + 1), s.substr(g.raw(n), g.in(1, 6))); int best = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < (int)t.size(); ++j) { int k = 0; while (i + k < n && j + k < (int)t.size() && s[i + k] == t[j + k]) ++k; best = std::max(best, k); } auto [x, y, l] = a.longest_common_substring(cv(t)); g.note("lcs with ", t); EQ(l, best); CK(x >= 0 && y >= 0 && x + l <= n && y + l <= (int)t.size()); CK(s.substr(x, l) == t.substr(y, l));
}
PBT(suffix_automaton, 5000, "a pattern of length at least 2 occurring twice", 8, 25) {
    auto s = gs(g, 0, 18); g.note("s ", s); if (g.coin()) sauto<suisen::SuffixAutomaton<char>, std::string>(g, s, [](const std::string& t) { return t; }); else sauto<suisen::SuffixAutomaton<int>, std::vector<int>>(g, s, [](const std::string& t) { return std::vector<int>(t.begin(), t.end()); });
}
template <class T, class Seq> static void sset(Gen& g, std::function<Seq(const std::string&)> cv) {
    auto s = gs(g, 0, 12); int n = s.size(); g.note(s); suisen::SubstringSet<T> st; if (g.coin()) st = suisen::SubstringSet<T>(cv(s)); else { if (g.coin()) st.build(cv(gs(g, 0, 8))); st.build(cv(s)); } std::set<Seq> u{ Seq{} }; for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; ++r) u.insert(cv(s.substr(l, r - l))); std::vector<Seq> w(u.begin(), u.end()); i64 m = w.size(); EQ(st.size(), m); for (i64 k = 0; k < m; ++k) { CK(st[k] == w[k]); CK(st.kth_element(k) == w[k]); }
    { i64 k = 0; for (auto it = st.begin(); it != st.end(); ++it, ++k) CK(*it == w[k]); EQ(k, m); for (auto it = st.rbegin(); it != st.rend(); ++it) CK(*it == w[--k]); EQ(k, (i64)0); i64 d = g.raw(m + 1); auto it = st.begin() + d; EQ(it - st.cbegin(), d); it -= d; CK(it == st.begin()); it += d; CK(st.end() - (m - d) == it); if (d) { --it; CK(*it == w[d - 1]); CK(it < st.end() && st.begin() <= it); } }
    for (int q = g.in(1, 8); q--;) { auto p = g.coin() && n ? s.substr(g.raw(n), g.in(0, 6)) : gs(g, 0, 4); if (g.coin() && p.size()) p.back() = 'a' + g.raw(4); auto v = cv(p); i64 lt = std::lower_bound(w.begin(), w.end(), v) - w.begin(), le = std::upper_bound(w.begin(), w.end(), v) - w.begin(); g.note("key ", p); EQ(st.contains(v), u.count(v) > 0); EQ(st.count_lt(v), lt); EQ(st.count_leq(v), le); EQ(st.count_gt(v), m - le); EQ(st.count_geq(v), m - lt); if (lt < m) CK(st.min_geq(v) == w[lt]); if (le < m) CK(st.min_gt(v) == w[le]); if (lt) CK(st.max_lt(v) == w[lt - 1]); if (le) CK(st.max_leq(v) == w[le - 1]); EQ(st.lower_bound(v) - st.begin(), lt); EQ(st.upper_bound(v) - st.begin(), le); EQ(st.find(v) - st.begin(), u.count(v) ? lt : m); }
    g.nontrivial(m >= 10);
}
PBT(substring_set, 3000, "at least 10 distinct substrings", 8, 100) { if (g.coin()) sset<char, std::string>(g, [](const std::string& t) { return t; }); else sset<int, std::vector<int>>(g, [](const std::string& t) { return std::vector<int>(t.begin(), t.end()); }); }
// Distinct sequences get distinct hashes although their difference is a polynomial with small integer roots.
template <class R> static void small_roots1(const R& mk) { const int M = 1500; std::vector<int> v{ 1, 0 }; for (int b = 0; b <= M; ++b) v.push_back(0), v.push_back(b); auto h = mk(v); auto x = h(0, 2); for (int b = 0; b <= M; ++b) CKM(!(h(2 * b + 2, 2 * b + 4) == x), "two short sequences share every hash"); }
template <class R> static void small_roots2(const R& mk) { const int M = 130; std::vector<int> v; for (int a = 1; a <= M; ++a) for (int b = a; b <= M; ++b) for (int x : { 1, 0, a * b, 0, a + b, 0 }) v.push_back(x); auto h = mk(v); for (int i = 0; i < (int)v.size(); i += 6) CKM(!(h(i, i + 3) == h(i + 3, i + 6)), "two short sequences share every hash"); auto x = h(0, 3); CKM(x[0] != x[1], "the bases are not independent"); }
PBT(hash_small_roots, 3, "always") { g.nontrivial(); small_roots1([](const std::vector<int>& v) { return suisen::RollingHash<1>(v); }); small_roots2([](const std::vector<int>& v) { return suisen::RollingHash<2>(v); }); suisen::DynamicRollingHash<1>::init_pool(10000); suisen::DynamicRollingHash<2>::init_pool(200000); small_roots1([](const std::vector<int>& v) { return suisen::DynamicRollingHash<1>(v); }); small_roots2([](const std::vector<int>& v) { return suisen::DynamicRollingHash<2>(v); }); }
