#include <bits/stdc++.h>
#include "common.hpp"
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/icpc/parsing.hpp"
#include "library/type_traits/type_traits.hpp"
#include "library/type_traits/operator.hpp"
#include "library/debug/tree.hpp"
using namespace hv; using std::vector;
namespace io = suisen::io;
namespace { std::string ustr128(unsigned __int128 x) { std::string s; do s += char('0' + (int)(x % 10)), x /= 10; while (x); return { s.rbegin(), s.rend() }; }
std::string str128(__int128 x) { return x < 0 ? "-" + ustr128(-(unsigned __int128)x) : ustr128((unsigned __int128)x); }
unsigned __int128 g128(Gen& g) { unsigned __int128 x = ((unsigned __int128)g.u64any() << 64) | g.u64any(); return x >> g.in(0, 127); } }

PBT(print_read_round_trip, 6000, "always") {
    __int128 a = (__int128)g128(g); unsigned __int128 b = g128(g); if (g.chance(1, 10)) a = g.coin() ? ~(__int128)((unsigned __int128)-1 >> 1) : (__int128)((unsigned __int128)-1 >> 1); if (g.chance(1, 10)) b = (unsigned __int128)-1; i64 c = (i64)g.u64any(); int d = (int)g.u64any(); std::string w = "w" + std::to_string(g.in(0, 999)); char ch = 'a' + g.in(0, 25);
    int n = g.in(0, 5), m = g.in(1, 4); vector<vector<i64>> M(n, vector<i64>(m)); for (auto& r : M) for (auto& x : r) x = (i64)g.u64any(); vector<std::pair<int, __int128>> P(m); for (auto& p : P) p = { g.in(-9, 9), (__int128)g128(g) }; std::tuple<int, std::string, std::pair<unsigned __int128, i64>, std::array<int, 2>> T{ d, w, { b, c }, { g.in(0, 9), g.in(-9, 0) } };
    std::ostringstream os; { io::OutputStream out{ os }; out.print(a, b, c, d, w, ch); out << a << ' ' << b << '\n'; out.print(); out.print(M); out.print_all(P, "\n"); out.print(T); out.print_all(vector<__int128>{ a, a }, ", ", ";"); }
    std::string e = str128(a) + " " + ustr128(b) + " " + std::to_string(c) + " " + std::to_string(d) + " " + w + " " + ch + "\n" + str128(a) + " " + ustr128(b) + "\n\n"; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) e += (i || j ? " " : "") + std::to_string(M[i][j]); e += "\n"; for (int i = 0; i < m; ++i) e += (i ? "\n" : "") + std::to_string(P[i].first) + " " + str128(P[i].second); e += "\n"; { auto [t0, t1, t2, t3] = T; e += std::to_string(t0) + " " + t1 + " " + ustr128(t2.first) + " " + std::to_string(t2.second) + " " + std::to_string(t3[0]) + " " + std::to_string(t3[1]) + "\n"; } e += str128(a) + ", " + str128(a) + ";"; g.note(e); EQ(os.str(), e);
    std::istringstream is(e); io::InputStream in{ is }; __int128 a1, a2; unsigned __int128 b1, b2; i64 c1; int d1; std::string w1; char ch1; in.read(a1, b1, c1, d1, w1, ch1); in >> a2 >> b2; CKM(a1 == a && b1 == b && c1 == c && d1 == d && w1 == w && ch1 == ch && a2 == a && b2 == b, "scalars"); vector<vector<i64>> M1(n, vector<i64>(m)); in >> M1; CKM(M1 == M, "nested vector"); vector<std::pair<int, __int128>> P1(m); in.read(P1); CKM(P1 == P, "vector of pairs"); decltype(T) T1; in >> T1; CKM(T1 == T, "tuple"); CKM(&in.get_stream() == &is, "underlying stream");
    { io::InputStream r{ std::istringstream{ e } }; __int128 x = r.read(); unsigned __int128 y = r.read(); i64 z = r.read(); int q = r.read(); std::string s = r.read(); CKM(x == a && y == b && z == c && q == d && s == w, "read() converts to the requested type"); io::OutputStream o{ std::ostringstream{} }; o << x; CKM(o.get_stream().str() == str128(a), "owned stream"); } g.nontrivial(true);
}
PBT(standard_streams, 200, "always") {
    int a = g.in(-99, 99), b = g.in(-99, 99); std::string s = "q" + std::to_string(a); std::istringstream is(std::to_string(a) + "\n" + s + " " + std::to_string(b)); auto* ob = std::cin.rdbuf(is.rdbuf()); std::cin.clear(); int x, y; std::string t; x = suisen::read(); suisen::read(t, y); std::cin.rdbuf(ob); std::cin.clear(); CKM(x == a && t == s && y == b, "read from std::cin"); std::ostringstream os; auto* oo = std::cout.rdbuf(os.rdbuf()); suisen::print(a, s); suisen::print(); suisen::print_all(vector<int>{ a, b }); suisen::print_all(vector<int>{ a, b }, "-", "."); io::cout << (__int128)b; std::cout.rdbuf(oo); EQ(os.str(), std::to_string(a) + " " + s + "\n\n" + std::to_string(a) + " " + std::to_string(b) + "\n" + std::to_string(a) + "-" + std::to_string(b) + "." + std::to_string(b)); g.nontrivial(true);
}
namespace {
using W = __int128; struct Ex { std::string s; W v; bool ok; };
Ex gexpr(Gen& g, int d); bool fits(W v) { return v > -(W)4000000000000000000 && v < (W)4000000000000000000; }
Ex gfactor(Gen& g, int d) { int neg = g.chance(1, 4) ? g.in(1, 3) : 0; Ex e; if (d <= 0 || g.chance(2, 3)) { i64 x = g.chance(1, 10) ? g.range(0, 1000000000000000000) : g.in(0, 30); std::string z = g.chance(1, 10) ? "00" : ""; e = { z + std::to_string(x), x, true }; } else { e = gexpr(g, d - 1); e.s = "(" + e.s + ")"; } if (neg % 2) e.v = -e.v; e.s = std::string(neg, '-') + e.s; return e; }
Ex gterm(Gen& g, int d) { Ex e = gfactor(g, d); int k = g.in(0, 2); for (int i = 0; i < k; ++i) { Ex f = gfactor(g, d); bool dv = g.coin() && f.v != 0; e.s += dv ? "/" : "*"; e.s += f.s; e.ok &= f.ok; if (e.ok) { e.v = dv ? e.v / f.v : e.v * f.v; e.ok &= fits(e.v); } } return e; }
Ex gexpr(Gen& g, int d) { Ex e = gterm(g, d); int k = g.in(0, 2); for (int i = 0; i < k; ++i) { Ex f = gterm(g, d); bool m = g.coin(); e.s += m ? "-" : "+"; e.s += f.s; e.ok &= f.ok; if (e.ok) { e.v = m ? e.v - f.v : e.v + f.v; e.ok &= fits(e.v); } } return e; }
struct Hush { std::ostringstream o; std::streambuf* b; Hush() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Hush() { std::cerr.rdbuf(b); } };
}
PBT(expressions, 8000, "at least two operators") {
    namespace ps = suisen::parsing; Ex e = gexpr(g, 3); if (!e.ok) return; std::string tail = g.pick({ std::string(""), std::string("="), std::string(")x"), std::string(" ") }); std::string s = e.s + tail; g.note(s, (i64)e.v); ps::State it = s.begin(); long long v = ps::normal_expression::parse(it); EQ((i64)v, (i64)e.v); EQ((int)(it - s.cbegin()), (int)e.s.size()); int ops = 0; for (char c : e.s) ops += std::strchr("+-*/", c) != nullptr; g.nontrivial(ops >= 2);
}
PBT(malformed_expressions, 3000, "always") {
    namespace ps = suisen::parsing; Ex e = gexpr(g, 2); if (!e.ok) return; Hush h; std::string s = e.s + g.pick({ std::string("+"), std::string("*"), std::string("-"), std::string("/)"), std::string("*x"), std::string("+()") }); if (g.chance(1, 3)) s = "(" + e.s; else if (g.chance(1, 6)) s = ""; g.note(s); ps::State it = s.begin(); bool thrown = false; try { ps::normal_expression::parse(it); } catch (ps::ParseError&) { thrown = true; } CKM(thrown, "a malformed expression raises ParseError"); g.nontrivial(true);
}
PBT(parser_primitives, 4000, "always") {
    namespace ps = suisen::parsing; Hush h; i64 x = g.range(0, 1000000000000000000); int neg = g.in(0, 3); std::string s = std::string(neg, '-') + std::to_string(x) + "z"; ps::State it = s.begin(); EQ((i64)ps::number(it), neg % 2 ? -x : x); CKM(ps::is(it, 'z') && !ps::is(it, 'y') && ps::in(it, 'a', 'z') && !ps::in(it, 'a', 'y'), "is, in"); std::string t = std::to_string(x) + "q"; it = t.begin(); EQ((i64)ps::nonnegative_number(it), x); CKM(*it == 'q', "stops at the first non-digit"); auto thr = [&](auto f) { try { f(); return false; } catch (ps::ParseError&) { return true; } }; auto b = it; CKM(thr([&] { ps::consume(it, 'r'); }) && it == b, "failed consume"); CKM(thr([&] { ps::nonnegative_number(it); }), "no digit"); CKM(thr([&] { ps::assert_range(it, '0', '9'); }) && !thr([&] { ps::assert_range(it, 'q', 'q'); }) && thr([&] { ps::assert_exact(it, 'x'); }) && !thr([&] { ps::assert_exact(it, 'q'); }), "assertions"); ps::consume(it, 'q'); CKM(it == t.cend(), "consume advances by one"); g.nontrivial(true);
}
namespace {
struct NoOps {}; struct Lt { bool operator<(const Lt&) const { return true; } }; struct Fn { Fn operator+(int) const { return {}; } Fn operator-() const { return {}; } };
using namespace suisen;
static_assert(has_operator_plus_v<int> && has_operator_plus_v<std::string> && !has_operator_plus_v<NoOps> && has_operator_plus_v<Fn, int> && !has_operator_plus_v<Fn, std::string> && !has_operator_plus_v<Fn>);
static_assert(has_operator_negate_v<int> && has_operator_negate_v<Fn> && !has_operator_negate_v<std::string>);
static_assert(has_operator_minus_v<int> && !has_operator_minus_v<std::string> && has_operator_multiplies_v<double> && has_operator_divides_v<double> && has_operator_modulus_v<int> && !has_operator_modulus_v<double>);
static_assert(has_operator_bit_not_v<int> && !has_operator_bit_not_v<double> && has_operator_bit_and_v<int> && !has_operator_bit_and_v<double> && has_operator_bit_or_v<int> && !has_operator_bit_or_v<double> && has_operator_bit_xor_v<int> && !has_operator_bit_xor_v<double>);
static_assert(has_operator_logical_not_v<int> && !has_operator_logical_not_v<NoOps> && has_operator_logical_and_v<bool> && !has_operator_logical_and_v<NoOps> && has_operator_logical_or_v<bool> && !has_operator_logical_or_v<NoOps>);
static_assert(has_operator_equal_to_v<std::string> && !has_operator_equal_to_v<NoOps> && has_operator_not_equal_to_v<int> && !has_operator_not_equal_to_v<Lt> && has_operator_less_v<Lt> && !has_operator_less_v<NoOps> && has_operator_less_equal_v<int> && !has_operator_less_equal_v<Lt> && has_operator_greater_v<int> && !has_operator_greater_v<Lt> && has_operator_greater_equal_v<int> && !has_operator_greater_equal_v<Lt>);
static_assert(bitnum_v<int> == 32 && bitnum_v<unsigned char> == 8 && bitnum_v<short> == 16 && bitnum_v<long long> == 64 && bitnum_v<std::string> == 0 && is_nbit_v<unsigned, 32> && !is_nbit_v<int, 64> && is_nbit_v<unsigned long long, 64>);
static_assert(std::is_same_v<safely_multipliable_t<int>, long long> && std::is_same_v<safely_multipliable_t<unsigned>, unsigned long long> && std::is_same_v<safely_multipliable_t<long long>, __int128_t> && std::is_same_v<safely_multipliable_t<unsigned long long>, __uint128_t> && std::is_same_v<safely_multipliable_t<double>, double>);
static_assert(std::is_same_v<rec_value_type_t<vector<vector<std::set<int>>>>, int> && std::is_same_v<rec_value_type_t<double>, double> && std::is_same_v<rec_value_type_t<std::string>, char>);
static_assert(is_iterable_v<vector<int>> && is_iterable_v<std::string> && !is_iterable_v<int> && is_writable_v<std::string> && !is_writable_v<vector<int>> && !is_writable_v<__int128_t> && is_readable_v<int> && !is_readable_v<vector<int>> && !is_readable_v<__int128_t>);
}
// The drawing of a tree determines the tree: read it back from the columns of the labels and connectors.
PBT(tree_drawing, 3000, "at least four vertices", 8, 12) {
    int n = g.size(1, 12); auto es = g.tree(n); vector<vector<int>> ch(n); { vector<vector<int>> ad(n); for (auto& e : es) ad[e.first].push_back(e.second), ad[e.second].push_back(e.first); vector<int> st{ 0 }, par(n, -1); while (st.size()) { int u = st.back(); st.pop_back(); for (int v : ad[u]) if (v != par[u]) par[v] = u, ch[u].push_back(v), st.push_back(v); } }
    std::string s = suisen::debug::tree_to_string<int>(0, ch); g.note(s); struct Lab { int col, id, len; }; vector<vector<Lab>> lines; vector<std::string> raw; { std::istringstream is(s); std::string l; while (std::getline(is, l)) { raw.push_back(l); vector<Lab> v; for (size_t i = 0; i < l.size();) if (isdigit(l[i])) { size_t j = i; int x = 0; while (j < l.size() && isdigit(l[j])) x = x * 10 + (l[j++] - '0'); v.push_back({ (int)i, x, (int)(j - i) }); i = j; } else ++i; lines.push_back(v); } }
    // parent of a label: previous label in the same line, or for the first label of a line the label whose connector column is directly above
    vector<vector<int>> got(n); vector<int> seen(n); std::map<int, int> owner; // connector column -> parent
    for (size_t i = 0; i < lines.size(); ++i) { for (size_t k = 0; k < lines[i].size(); ++k) { auto& L = lines[i][k]; CKM(0 <= L.id && L.id < n && !seen[L.id]++, "each vertex drawn once"); int plus = (int)raw[i].rfind('+', L.col); if (k == 0 && i == 0) { CKM(L.id == 0, "root first"); } else { CKM(plus >= 0, "connector"); int par = k ? lines[i][k - 1].id : (owner.count(plus) ? owner[plus] : -1); CKM(par >= 0, "parent column"); got[par].push_back(L.id); } owner[L.col + L.len + 1] = L.id; } }
    CKM(got == ch, "the drawing shows the tree"); vector<vector<std::pair<std::string, int>>> ce(n); for (int u = 0; u < n; ++u) for (int v : ch[u]) ce[u].emplace_back("e" + std::to_string(v), v); std::string t = suisen::debug::tree_to_string<int, std::string>(0, ce); for (int v = 1; v < n; ++v) CKM(t.find("+-[e" + std::to_string(v) + "]- " + std::to_string(v) + " ") != std::string::npos, "edge labels"); std::string lf = suisen::debug::tree_to_string<int, std::string, std::string>(0, std::string(""), [](std::string a, std::string b) { return a + b; }, ce); for (int v = 0; v < n; ++v) if (ch[v].empty()) { vector<int> path; std::function<bool(int)> f = [&](int u) { if (u == v) return true; for (int w : ch[u]) { path.push_back(w); if (f(w)) return true; path.pop_back(); } return false; }; f(0); std::string acc; for (int w : path) acc += "e" + std::to_string(w); CKM(lf.find(std::to_string(v) + " (" + acc + ")\n") != std::string::npos, "accumulated leaf labels"); } {
        vector<vector<std::pair<char, int>>> cc(n); vector<vector<std::pair<int, int>>> ci(n); vector<char> el(n, '?'); for (int u = 0; u < n; ++u) for (int v : ch[u]) el[v] = 'a' + v % 26, cc[u].emplace_back(el[v], v), ci[u].emplace_back(v * 7, v);
        std::string c = suisen::debug::tree_to_string<int, char>(0, cc), d = suisen::debug::tree_to_string<int, int>(0, ci); for (int v = 1; v < n; ++v) { CKM(c.find(std::string("+-[") + el[v] + "]- " + std::to_string(v) + " ") != std::string::npos, "character edge labels"); CKM(d.find("+-[" + std::to_string(v * 7) + "]- " + std::to_string(v) + " ") != std::string::npos, "integer edge labels"); }
    }
    g.nontrivial(n >= 4);
}
