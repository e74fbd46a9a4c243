#include "num.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
using namespace hv;
// exact reference: (p, q) with q >= 0, compared by cross multiplication in 128 bits; q == 0 only for +-infinity
struct Q { i128 p, q; };
static Q mk(i128 p, i128 q) { if (q < 0) p = -p, q = -q; i128 a = p < 0 ? -p : p, b = q; while (b) { i128 t = a % b; a = b; b = t; } if (a) p /= a, q /= a; return { p, q }; }
static int cq(Q a, Q b) { i128 l = a.p * b.q, r = b.p * a.q; if (a.q == 0 && b.q == 0) return a.p < b.p ? -1 : a.p > b.p; return l < r ? -1 : l > r; }
template <class T> static bool same(const suisen::Rational<T>& r, Q q) { return (i128)r.num == q.p && (i128)r.den == q.q; }
#define SAME(e, v) CKM(same((e), (v)), #e " is wrong")
template <class T> static void rat(Gen& g, i64 lim) {
    using R = suisen::Rational<T>;
    auto gn = [&](bool nz) { i64 v = g.edgy(-lim, lim); return nz && !v ? (i64)1 : v; };
    T an = gn(false), ad = gn(true), bn = gn(false), bd = gn(true);
    if (g.chance(1, 4)) { T k = g.in(-3, 3); bn = an + k * 1, bd = ad; }                                  // equal or nearby
    if (g.chance(1, 4)) { T q = g.in(1, 30), w = g.in(1, 30), s = g.coin() ? 1 : -1, m = g.in(0, 3); an = s * (m * q + g.in(0, q)); ad = q; bn = s * (m * w + g.in(0, w)); bd = w; } // equal integer parts
    R a(an, ad), b(bn, bd); Q x = mk(an, ad), y = mk(bn, bd); g.note((i64)an, "/", (i64)ad, " ", (i64)bn, "/", (i64)bd);
    SAME(a, x); SAME(b, y); SAME(R(), mk(0, 1)); SAME(R(an), mk(an, 1));
    int c = cq(x, y); int rc = R::compare(a, b); CKM((rc > 0) - (rc < 0) == c, "compare is wrong"); EQ(a < b, c < 0); EQ(a > b, c > 0); EQ(a <= b, c <= 0); EQ(a >= b, c >= 0); EQ(a == b, c == 0); EQ(a != b, c != 0);
    SAME(max(a, b), (c > 0 ? x : y)); SAME(min(a, b), (c < 0 ? x : y));
    EQ(a.signum(), x.p > 0 ? 1 : x.p < 0 ? -1 : 0); SAME(+a, x); SAME(-a, mk(-x.p, x.q)); SAME(a.abs(), mk(x.p < 0 ? -x.p : x.p, x.q)); if (x.p) SAME(a.inv(), mk(x.q, x.p));
    SAME(a + b, mk(x.p * y.q + y.p * x.q, x.q * y.q)); SAME(a - b, mk(x.p * y.q - y.p * x.q, x.q * y.q)); SAME(a * b, mk(x.p * y.p, x.q * y.q)); if (y.p) SAME(a / b, mk(x.p * y.q, x.q * y.p));
    { R t = a; t += b; CK(t == a + b); t = a; t -= b; CK(t == a - b); t = a; t *= b; CK(t == a * b); if (y.p) { t = a; t /= b; CK(t == a / b); t = b; t /= t; SAME(t, mk(1, 1)); } t = a; t += t; SAME(t, mk(2 * x.p, x.q)); t = a; t -= t; SAME(t, mk(0, 1)); }
    i128 fl = x.p / x.q - (x.p % x.q < 0), ce = x.p / x.q + (x.p % x.q > 0); EQ((i64)a.floor(), (i64)fl); EQ((i64)a.ceil(), (i64)ce); EQ((long long)a, (long long)(x.p / x.q)); EQ((int)a, (int)(x.p / x.q));
    CK(std::abs((double)a * (double)x.q - (double)x.p) <= 1e-12 * (1 + std::abs((double)x.p))); CK(std::abs((long double)a * (long double)x.q - (long double)x.p) <= 1e-15L * (1 + std::abs((long double)x.p)));
    { std::stringstream o; o << a; EQ(o.str(), std::to_string((i64)x.p) + "/" + std::to_string((i64)x.q)); }
    R inf(1, 0), ninf(-1, 0); CK(a < inf && inf > a && ninf < a && a > ninf && ninf < inf && !(inf < inf) && inf == inf);
    g.nontrivial(x.q > 1 && y.q > 1 && fl == y.p / y.q - (y.p % y.q < 0));
}
PBT(rational_arithmetic, 40000, "two proper fractions with the same integer part") { switch (g.raw(3)) { case 0: rat<int>(g, 8); break; case 1: rat<int>(g, 20000); break; default: rat<long long>(g, 1000000000LL); } }
PBT(rational_compare_huge, 20000, "the fractions differ by less than 10^-9") { using R = suisen::Rational<long long>; i64 L = 1000000000000000000LL; i64 p = g.edgy(-L, L), q = g.edgy(1, L), r, s; switch (g.raw(4)) { case 0: r = g.edgy(-L, L), s = g.edgy(1, L); break; case 1: r = p + g.in(-1, 1), s = q; break; case 2: r = p + g.in(-2, 2), s = std::max<i64>(1, q + g.in(-2, 2)); break; default: r = p / 2, s = std::max<i64>(1, q / 2); } Q x = mk(p, q), y = mk(r, s); int c = cq(x, y), k = R::compare(R(p, q), R(r, s)); g.note(p, "/", q, " ", r, "/", s); CKM((k > 0) - (k < 0) == c, "compare is wrong"); g.nontrivial(c && std::abs((double)p / q - (double)r / s) < 1e-9); }
PBT(rational_approximate, 6000, "neither bound is the target or a limit") { using R = suisen::Rational<long long>; i64 q = g.in(1, 60), p = g.in(0, 120), mn = g.in(0, 30), md = g.in(1, 30); bool neg = g.coin(); long double t = (long double)p / q; if (neg) t = -t; g.note(neg ? "-" : "", p, "/", q, " limits ", mn, " ", md); auto [lo, hi] = R::approximate(t, mn, md); Q x = mk(neg ? -p : p, q), a = { lo.num, lo.den }, b = { hi.num, hi.den }; CKM(cq(a, x) <= 0 && cq(x, b) <= 0, "bounds do not enclose the target"); for (Q e : { a, b }) CKM(e.q == 0 || ((e.p < 0 ? -e.p : e.p) <= mn && e.q <= md) || (e.p == 0 && e.q == 1), "bound exceeds the limits"); for (i64 d = 1; d <= md; ++d) for (i64 n = 0; n <= mn; ++n) { Q e = mk(neg ? -n : n, d); CKM(!(cq(a, e) < 0 && cq(e, b) < 0), "a better approximation exists"); } g.nontrivial(cq(a, x) && cq(x, b) && a.q && b.q); }
PBT(rational_tables, 120, "depth at least 4") { using R = suisen::Rational<long long>; int d = g.in(0, 11); auto t = R::stern_brocot(d); EQ((int)t.size(), 2 << d); for (int i = 1; i < (int)t.size(); ++i) { i64 ln = 0, ld = 1, rn = 1, rd = 0; int top = 31 - __builtin_clz(i); for (int b = top - 1; b >= 0; --b) { i64 mn = ln + rn, md = ld + rd; if (i >> b & 1) ln = mn, ld = md; else rn = mn, rd = md; } CKM(t[i].num == ln + rn && t[i].den == ld + rd, "stern_brocot entry"); } std::vector<std::pair<i64, i64>> f{ { 0, 1 }, { 1, 1 } }; for (int k = 0; k <= d; ++k) { std::vector<std::pair<i64, i64>> h; for (size_t i = 0; i + 1 < f.size(); ++i) { h.push_back(f[i]); h.emplace_back(f[i].first + f[i + 1].first, f[i].second + f[i + 1].second); } h.push_back(f.back()); f = h; } auto s = R::farey_sequence(d); EQ(s.size(), f.size()); for (size_t i = 0; i < f.size(); ++i) CKM(s[i].num == f[i].first && s[i].den == f[i].second, "farey_sequence entry"); g.nontrivial(d >= 4); }
// Stern-Brocot tree against explicit L/R strings
static std::string walk(i64 a, i64 b) { std::string s; i64 ln = 0, ld = 1, rn = 1, rd = 0; for (;;) { i64 mn = ln + rn, md = ld + rd; if (mn * b == a * md) return s; if (a * md < mn * b) rn = mn, rd = md, s += 'L'; else ln = mn, ld = md, s += 'R'; } }
static void val(const std::string& s, i64 o[6]) { i64 ln = 0, ld = 1, rn = 1, rd = 0; for (char c : s) { i64 mn = ln + rn, md = ld + rd; if (c == 'L') rn = mn, rd = md; else ln = mn, ld = md; } o[0] = ln, o[1] = ld, o[2] = rn, o[3] = rd, o[4] = ln + rn, o[5] = ld + rd; }
template <class I> static bool is_node(const suisen::sbt_node<I>& x, const std::string& s) { i64 o[6]; val(s, o); auto r = x.get(); auto [lo, hi] = x.range(); if ((i64)x.depth() != (i64)s.size() || (i64)r.first != o[4] || (i64)r.second != o[5] || (i64)lo.first != o[0] || (i64)lo.second != o[1] || (i64)hi.first != o[2] || (i64)hi.second != o[3]) return false; std::string t; char last = 0; for (auto [d, k] : x.path()) { char c = d == suisen::sbt_node<I>::Left ? 'L' : 'R'; if (c == last || k <= 0) return false; last = c; t += std::string((size_t)k, c); } return t == s; }
static std::string lcp(const std::string& a, const std::string& b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return a.substr(0, k); }
static bool pre(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static std::string gen_sb(Gen& g) { if (g.coin()) { i64 a = g.in(1, 40), b = g.in(1, 40); return walk(a, b); } std::string s; for (int k = g.in(0, 5); k--;) s += std::string(g.in(1, 4), g.coin() ? 'L' : 'R'); return s; }
template <class I> static void sb(Gen& g) { using N = suisen::sbt_node<I>; auto s = gen_sb(g), t = g.chance(1, 3) ? s.substr(0, g.raw(s.size() + 1)) + (g.coin() ? gen_sb(g) : std::string()) : gen_sb(g); if (s.size() > 18) s.resize(18); if (t.size() > 18) t.resize(18); g.note(s, " ", t); i64 o[6], w[6]; val(s, o); val(t, w); N x((I)o[4], (I)o[5]), y(typename N::rational{ (I)w[4], (I)w[5] }); CKM(is_node(x, s), "node from a fraction"); CKM(is_node(y, t), "node from a fraction"); CK(is_node(N(), "")); { N z(x.path()); CK(z == x && is_node(z, s)); N u; for (char c : s) { if (g.coin()) u.move_down(c == 'L' ? N::Left : N::Right, 1); else if (c == 'L') u.move_down_left(1); else u.move_down_right(1); if (g.coin()) u.move_down(g.coin(), 0); } CKM(is_node(u, s), "move_down"); } { i64 m = g.in(1, 5); i64 aa = o[4] * m, bb = o[5] * m; N z((I)aa, (I)bb); CKM(is_node(z, s), "unreduced fraction"); }
    auto c = lcp(s, t); CKM(is_node(N::lca(x, y), c), "lca"); CKM(is_node(x.lca(y), c), "lca"); i64 d = s.size() + t.size() - 2 * c.size(); EQ((i64)N::dist(x, y), d); EQ((i64)x.dist(y), d); EQ(x.is_ancestor_of(y), pre(s, t)); EQ(x.is_descendant_of(y), pre(t, s)); i64 lt = o[4] * w[5] - w[4] * o[5]; EQ(x == y, s == t); EQ(x != y, s != t); EQ(x < y, lt < 0); EQ(x > y, lt > 0); EQ(x <= y, lt <= 0); EQ(x >= y, lt >= 0); auto sg = [](int v) { return (v > 0) - (v < 0); }; int in = lt < 0 ? -1 : lt > 0; EQ(sg(N::compare_in_order(x, y)), in); EQ(sg(N::compare_pre_order(x, y)), s == t ? 0 : pre(s, t) ? -1 : pre(t, s) ? 1 : in); EQ(sg(N::compare_post_order(x, y)), s == t ? 0 : pre(s, t) ? 1 : pre(t, s) ? -1 : in);
    { i64 k = g.in(-1, (int)s.size() + 2); N z = x; bool ok = z.move_up((I)k); EQ(ok, k >= 0 && k <= (i64)s.size()); CKM(is_node(z, ok ? s.substr(0, s.size() - k) : s), "move_up"); } { i64 k = g.in(0, (int)d + 2); N z = x; bool ok = z.move_to(y, (I)k); EQ(ok, k <= d); i64 up = s.size() - c.size(); CKM(is_node(z, !ok ? s : k <= up ? s.substr(0, s.size() - k) : t.substr(0, c.size() + (k - up))), "move_to"); } g.nontrivial(s != t && c.size() > 0); }
PBT(stern_brocot_tree, 30000, "distinct nodes whose lca is not the root") { if (g.coin()) sb<int>(g); else sb<long long>(g); }
PBT(stern_brocot_auxiliary_tree, 8000, "at least 4 nodes and at least one lca not given") { using N = suisen::sbt_node<long long>; int k = g.in(1, 8); std::vector<std::string> v; std::vector<N> xs; std::string base = gen_sb(g); if (base.size() > 8) base.resize(8); for (int i = 0; i < k; ++i) { auto s = (g.coin() ? base : std::string()) + gen_sb(g); if (s.size() > 20) s.resize(20); if (v.size() && g.chance(1, 6)) s = v[g.raw(v.size())]; v.push_back(s); i64 o[6]; val(s, o); xs.emplace_back(o[4], o[5]); } std::set<std::string> cl; for (auto& a : v) for (auto& b : v) cl.insert(lcp(a, b)); auto t = N::auxiliary_tree(xs); EQ(t.size(), (int)cl.size()); EQ((int)t.nodes().size(), (int)cl.size()); std::vector<std::string> nm; for (int i = 0; i < t.size(); ++i) { std::string s; for (auto [d, q] : t.node(i).path()) s += std::string(q, d == N::Left ? 'L' : 'R'); CK(is_node(t.node(i), s)); CK(cl.count(s)); nm.push_back(s); } EQ((int)std::set<std::string>(nm.begin(), nm.end()).size(), t.size()); std::set<std::pair<std::string, std::string>> want, got; int ecnt = 0; for (auto& s : cl) { std::string best; bool any = false; for (auto& p : cl) if (p != s && pre(p, s) && (!any || p.size() > best.size())) best = p, any = true; if (any) want.insert({ best, s }), want.insert({ s, best }); } for (int i = 0; i < t.size(); ++i) for (int j : t[i]) got.insert({ nm[i], nm[j] }), ++ecnt; CKM(want == got, "edges of the auxiliary tree"); EQ(ecnt, (int)want.size()); for (auto& s : cl) CK(pre(nm[t.root()], s)); g.nontrivial(std::set<std::string>(v.begin(), v.end()).size() >= 4 && cl.size() > std::set<std::string>(v.begin(), v.end()).size()); }
PBT(stern_brocot_huge, 10000, "more than 5 direction changes") { using N = suisen::sbt_node<long long>; i64 L = 1000000000000000000LL; i64 a = g.edgy(1, L), b = g.edgy(1, L); if (g.chance(1, 4)) { b = std::max<i64>(1, a / g.in(1, 1000000) + g.in(0, 1)); } i64 q = std::__gcd(a, b); a /= q, b /= q; N x(a, b); g.note(a, "/", b); auto r = x.get(); EQ((i64)r.first, a); EQ((i64)r.second, b); auto [lo, hi] = x.range(); EQ((i64)(lo.first + hi.first), a); EQ((i64)(lo.second + hi.second), b); CK((i128)hi.first * lo.second - (i128)hi.second * lo.first == 1); i64 dep = 0; char last = 2; for (auto [d, k] : x.path()) { CK(k > 0 && d != last); last = d; dep += k; } EQ((i64)x.depth(), dep); N y(x.path()); CK(x == y); i64 k = g.edgy(0, dep); N z = x; CK(z.move_up(k)); EQ((i64)z.depth(), dep - k); CK(z.is_ancestor_of(x)); CK(N::lca(z, x) == z); EQ((i64)N::dist(z, x), k); CK(z.move_to(x, k)); CK(z == x); i64 c = g.edgy(1, L), e = g.edgy(1, L); N w(c, e), u = N::lca(x, w); CK(u.is_ancestor_of(x) && u.is_ancestor_of(w)); auto [un, ud] = u.get(); i64 qq = std::__gcd(c, e); i128 s1 = (i128)a * ud - (i128)un * b, s2 = (i128)(c / qq) * ud - (i128)un * (e / qq); CKM(!((s1 < 0 && s2 < 0) || (s1 > 0 && s2 > 0)), "a deeper common ancestor exists"); EQ(x < w, (i128)a * (e / qq) < (i128)(c / qq) * b); g.nontrivial(x.path().size() > 5); }
