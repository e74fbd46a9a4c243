// An operand or argument that is (part of) the object itself counts with the value it had before the call.
#include "../common.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/math/bigint.hpp"
#include "library/number/rational.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/factorial_number.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/xor_base.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/util/permutation.hpp"
#include "library/integral_geom/point.hpp"
#include "library/convolution/convolution.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/cumulative_sum.hpp"
using namespace suisen; using namespace pbt;
using mint = atcoder::modint998244353;
#define RULE "the object has at least two distinct components"
static bool same(const XorBase<u64>& a, const XorBase<u64>& b) { auto t = a; for (u64 v : b.get_basis()) if (t.add(v)) return false; return a.dim() == b.dim(); }
template <class T> static bool same(const T& a, const T& b) { return a == b; }
// OP: a op= a against a op= (copy of a); and the free form
#define SELF(x, op) { auto a_ = x, b_ = x; const auto c_ = x; a_ op a_; b_ op c_; CKM(same(a_, b_), #op " with itself"); }
// scalar operand that is an element of the object
#define ELEM(x, op, el) { auto a_ = x, b_ = x; auto v_ = [&](auto& z) { return el; }(b_); { auto& z = a_; a_ op (el); } b_ op v_; CKM(same(a_, b_), #op " with its own element"); }
static std::vector<mint> mv(Gen& g, int n) { std::vector<mint> r(n); for (auto& x : r) x = g.coin() ? g.in(0, 3) : (int)g.raw(998244353); return r; }
static bool distinct(const std::vector<mint>& v) { for (auto x : v) if (x != v[0]) return true; return false; }
template <class F> static void poly(Gen& g) {
    F f(mv(g, g.size(1, 12))); g.note("f"); g.nontrivial(distinct(f)); int k = g.raw(f.size());
    SELF(f, +=) SELF(f, -=) SELF(f, *=) auto h = f; if (h.back() == 0) h.back() = 1; SELF(h, /=) SELF(h, %=) { auto q = h; q /= q; CK(q.size() >= 1 && q[0] == 1); auto r = h; r %= r; for (auto x : r) CK(x == 0); }
    ELEM(f, *=, z[k]) ELEM(f, +=, z[k]) ELEM(f, -=, z[k])
    if (f[k] != 0) { auto a = f; mint v = f[k]; a *= v.inv(); auto b = f; b *= mint(1) / b[k]; CK(a == b); }
}
template <class F> static void poly_div(Gen& g) { F f(mv(g, g.size(1, 12))); int k = g.raw(f.size()); if (f[k] == 0) f[k] = 1; ELEM(f, /=, z[k]) g.nontrivial(distinct(f)); }
PBT(alias_fps, 4000, RULE) { FPS<mint>::set_multiplication([](const auto& a, const auto& b) { return atcoder::convolution(a, b); }); poly<FPS<mint>>(g); poly_div<FPS<mint>>(g); }
PBT(alias_formal_power_series, 4000, RULE) { poly<FormalPowerSeries<mint>>(g); poly_div<FormalPowerSeries<mint>>(g); }
PBT(alias_fps_naive, 4000, RULE) { poly<FPSNaive<mint>>(g); }
PBT(alias_set_power_series, 4000, RULE) {
    int n = g.in(0, 4); SetPowerSeries<mint> f(mv(g, 1 << n)); int k = g.raw(f.size()); g.nontrivial(distinct(f));
    SELF(f, +=) SELF(f, -=) SELF(f, *=) ELEM(f, *=, z[k]) if (f[k] == 0) f[k] = 1; ELEM(f, /=, z[k])
    auto a = f, b = f; const auto c = f; a.concat(a); b.concat(c); CKM(a == b, "concat with itself"); CK(a.size() == 2 * f.size()); CK(a.cut_lower(f.size()) == f && a.cut_upper(f.size()) == f);
}
template <class B> static void big(Gen& g, bool sg) {
    std::string s(1, char('1' + g.raw(9))); for (int k = g.size(0, 40); k--;) s += g.coin() ? char('0' + g.raw(10)) : g.coin() ? '9' : '0'; g.note(s); if (sg && g.coin()) s = "-" + s; B x(s); g.nontrivial(s.size() > 8);
    SELF(x, +=) SELF(x, -=) SELF(x, *=) SELF(x, /=) SELF(x, %=) auto a = x; a -= a; CK(a == B(0)); a = x; a /= a; CK(a == B(1)); a = x; a %= a; CK(a == B(0)); a = x; a += a; CK(a == x * B(2));
}
PBT(alias_bigint, 3000, "more than 8 digits") { if (g.coin()) big<unsigned_bigint>(g, false); else big<bigint>(g, true); }
PBT(alias_scalars, 4000, "always") {
    { i64 d = g.in(1, 1000); Rational<i64> r(g.in(1, 1000) * (g.coin() ? 1 : -1), d); SELF(r, +=) SELF(r, -=) SELF(r, *=) SELF(r, /=) }
    { modint2p61m1 r(g.u64any() >> 4); SELF(r, +=) SELF(r, -=) SELF(r, *=) }
    { nimber64_t r(g.u64any() | 1); SELF(r, +=) SELF(r, -=) SELF(r, *=) SELF(r, /=) }
    { Affine<mint> r(g.in(0, 9), g.in(0, 9)); auto eq = [](auto x, auto y) { return x.a == y.a && x.b == y.b; }; auto a = r, b = r; a += a; { auto c = r; b += c; } CK(eq(a, b)); a = r, b = r; a += a.b; b += mint(r.b); CK(eq(a, b)); a = r, b = r; a -= a.b; b -= mint(r.b); CK(eq(a, b)); }
    { factorial_number r(g.in(1, 9), g.in(0, 1000)); SELF(r, +=) SELF(r, -=) }
    { using namespace integral_geometry; Point p{ g.in(-9, 9), g.in(-9, 9) }; SELF(p, +=) SELF(p, -=) SELF(p, *=) auto a = p, b = p; a *= a.x; b *= i64(p.x); CK(a == b); }
    { auto w = g.perm(g.size(1, 9)); Permutation p(std::vector<int>(w.begin(), w.end())); SELF(p, *=) auto a = p; auto b = a.permute(a); auto c = a; CK(b == p.permute(c)); }
    g.nontrivial(true);
}
PBT(alias_matrix, 3000, RULE) {
    int n = g.in(1, 4); Matrix<mint> a(n, n); std::vector<mint> all; for (int i = 0; i < n; ++i) { a[i] = mv(g, n); all.insert(all.end(), a[i].begin(), a[i].end()); } int i = g.raw(n), j = g.raw(n); g.nontrivial(distinct(all));
    SELF(a, +=) SELF(a, -=) SELF(a, *=) ELEM(a, *=, z[i][j]) if (a[i][j] == 0) a[i][j] = 1; ELEM(a, /=, z[i][j])
    ArrayMatrix<mint, 3, 3> b; for (int r = 0; r < 3; ++r) { auto v = mv(g, 3); for (int c = 0; c < 3; ++c) b[r][c] = v[c]; } int k = g.raw(3), l = g.raw(3); SELF(b, +=) SELF(b, -=) SELF(b, *=) ELEM(b, *=, z[k][l]) if (b[k][l] == 0) b[k][l] = 1; ELEM(b, /=, z[k][l])
    MatrixF2 f(n, n); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) f[r][c] = g.coin(); SELF(f, +=) SELF(f, -=) SELF(f, *=)
}
PBT(alias_bitset, 3000, "at least one set bit and one clear bit") {
    int n = g.size(1, 200); DynamicBitSet x(n); int c = 0; for (int i = 0; i < n; ++i) { bool b = g.coin(); x[i] = b; c += b; } g.nontrivial(c > 0 && c < n); SELF(x, &=) SELF(x, |=) SELF(x, ^=) { auto a = x; int i = g.raw(n), j = g.raw(n); bool v = x[j]; a[i] = a[j]; CK(bool(a[i]) == v && bool(a[j]) == v); }
    static_bitset<130> s; for (int i = 0; i < 130; ++i) s.set(i, g.coin()); SELF(s, &=) SELF(s, |=) SELF(s, ^=)
    XorBase<u64> b; for (int k = g.in(0, 5); k--;) b.add(g.u64any()); SELF(b, +=) SELF(b, &=)
}

// a reference into the container itself as the argument of an insertion
PBT(alias_csr_insert, 4000, "at least two neighbours before the insertion") {
    int d = g.size(1, 6); std::vector<std::pair<int, int>> e; std::vector<int> m; for (int i = 0; i < d; ++i) { int v = g.in(0, 9); e.emplace_back(0, v); m.push_back(v); } for (int i = 0; i < 12; ++i) e.emplace_back(0, 3); auto x = Graph<void>::create_directed_graph(10, e); for (int i = 0; i < 12; ++i) x[0].pop_back();
    auto& L = x[0]; for (int q = g.in(1, 4); q--;) { int i = g.raw(m.size()), k = g.raw(m.size() + 1), c = g.in(1, 3); g.note("from", i, "at", k); switch (g.raw(4)) { case 0: { L.insert(L.cbegin() + k, L[i]); m.insert(m.begin() + k, int(m[i])); break; } case 1: { L.insert(L.cbegin() + k, c, L[i]); int v = m[i]; m.insert(m.begin() + k, c, v); break; } case 2: { L.push_back(L[i]); m.push_back(int(m[i])); break; } default: { L.emplace(L.cbegin() + k, L[i]); m.insert(m.begin() + k, int(m[i])); } } std::vector<int> now; for (int v : L) now.push_back(v); EQ(now, m); } g.nontrivial(d >= 2);
}
static std::string cat(std::string a, std::string b) { return a + b; }
static std::string emp() { return ""; }
PBT(alias_push, 4000, "at least three strings") {
    // strings long enough to be moved, so a reference that dies while the storage grows is noticed
    auto st = [&] { return std::string(20, char('a' + g.raw(4))) + char('a' + g.raw(26)); }; int n = g.size(1, 9); std::vector<std::string> m; MaxBinaryHeap<std::string> h; MinBinaryHeap<std::string> l; IntervalHeap<std::string> iv; DoubleEndedPriorityQueue<std::string> dp; DequeAggregation<std::string, cat, emp> dq; QueueAggregation<std::string, std::string, emp, cat, std::string, cat> qa; RunLengthEncoder<std::vector<std::string>> rl; std::multiset<std::string> ms;
    std::deque<std::string> dm; std::vector<std::string> qm, rm; auto push = [&](const std::string& s) { h.push(s), l.push(s), iv.push(s), dp.push(s), dq.push_back(s), dm.push_back(s), qa.push_back(s), qm.push_back(s), rl.push_back(s), rm.push_back(s); ms.insert(s); };
    for (int i = 0; i < n; ++i) push(st()); std::multiset<std::string> hm = ms, lm = ms, im = ms, pm = ms;
    for (int q = g.in(1, 12); q--;) { int k = g.raw(9); g.note(k); switch (k) {
        case 0: { std::string v = h.top(); h.push(h.top()); hm.insert(v); break; } case 1: { std::string v = l.top(); l.push(l.top()); lm.insert(v); break; } case 2: { std::string v = iv.min(); iv.push(iv.min()); im.insert(v); break; } case 3: { std::string v = iv.max(); iv.push(iv.max()); im.insert(v); break; }
        case 4: { std::string v = dp.min(); dp.push(dp.min()); pm.insert(v); break; } case 5: { std::string v = dp.max(); dp.push(dp.max()); pm.insert(v); break; }
        case 6: { int i = g.raw(dm.size()); if (g.coin()) { dm.push_back(std::string(dm[i])); dq.push_back(dq[i]); } else { dm.push_front(std::string(dm[i])); dq.push_front(dq[i]); } break; } case 7: { int i = g.raw(qm.size()); qm.push_back(std::string(qm[i])); qa.push_back(qa[i]); break; }
        default: { std::string v = rl.front().first; rl.push_back(rl.front().first, 2); rm.push_back(v); rm.push_back(v); } } }
    std::string all; for (auto& s : dm) all += s; EQ(dq.prod(), all); all = ""; for (auto& s : qm) all += s; EQ(qa.prod(), all); { std::vector<std::string> o; for (auto& [v, c] : rl) for (i64 k = 0; k < c; ++k) o.push_back(v); CKM(o == rm, "run lengths"); }
    while (hm.size()) { EQ(h.pop(), *hm.rbegin()); hm.erase(std::prev(hm.end())); } while (lm.size()) { EQ(l.pop(), *lm.begin()); lm.erase(lm.begin()); } while (im.size()) { if (g.coin()) { EQ(iv.pop_min(), *im.begin()); im.erase(im.begin()); } else { EQ(iv.pop_max(), *im.rbegin()); im.erase(std::prev(im.end())); } } while (pm.size()) { if (g.coin()) { EQ(dp.pop_min(), *pm.begin()); pm.erase(pm.begin()); } else { EQ(dp.pop_max(), *pm.rbegin()); pm.erase(std::prev(pm.end())); } }
    g.nontrivial(n >= 3);
}
