#include "large.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/convolution/min_plus_convolution.hpp"
using namespace hv;
PBT(envelopes_large, 3, "every case: tens of thousands of lines") {
    int n = 30000, how = g.raw(4); Bulk b(g); g.nontrivial(); std::vector<std::pair<i64, i64>> ls(n); const i64 X = 20000;
    for (int i = 0; i < n; ++i) { i64 a = how == 0 ? i - n / 2 : how == 1 ? b.in(-50, 50) : b.range(-1000000000, 1000000000); ls[i] = { a, how == 0 ? a * a / 2 : how == 2 ? -a : b.range(-1000000000000LL, 1000000000000LL) }; }
    if (g.coin()) b.shuffle(ls); std::vector<i64> xs(2 * X + 1); for (i64 x = -X; x <= X; ++x) xs[x + X] = x; suisen::MinCHT<i64> t; suisen::MaxCHT<i64> m; suisen::LiChaoSegmentTree<i64, true> lc(xs); for (auto [p, q] : ls) t.add_line(p, q), m.add_line(p, q), lc.add_line(p, q);
    auto o = sorted(ls); suisen::MonotonicCHT<i64, true, suisen::inc_query_tag> mi; suisen::MonotonicCHT<i64, false, suisen::non_monotonic_query_tag> mx; for (auto [p, q] : o) mi.add_line(p, q), mx.add_line(p, q);
    for (i64 x = -X; x <= X; x += 1 + b.raw(400)) { i64 e = INT64_MAX, f = INT64_MIN; for (auto [p, q] : ls) e = std::min(e, p * x + q), f = std::max(f, p * x + q); EQ(t.query(x), e); EQ(m.query(x), f); EQ(*lc.query(x), e); EQ(mi.query(x), e); EQ(mx.query(x), f); }
}
PBT(li_chao_segments_large, 2, "every case: 50000 points and 20000 segments") {
    int n = 50000; Bulk b(g); g.nontrivial(); std::vector<i64> xs(n); for (int i = 0; i < n; ++i) xs[i] = 3 * i - 60000; suisen::LiChaoSegmentTree<i64, false> t(xs); struct Sg { i64 l, r, a, c; }; std::vector<Sg> ss(20000); for (auto& s : ss) { s = { b.range(-70000, 100000), b.range(-70000, 100000), b.range(-1000000, 1000000), b.range(-1000000000000LL, 1000000000000LL) }; if (s.l > s.r) std::swap(s.l, s.r); if (b.coin()) s.r = s.l + b.in(0, 100); t.add_segment(s.l, s.r, s.a, s.c); }
    for (int k = 0; k < 300; ++k) { i64 x = xs[b.raw(n)]; std::optional<i64> e; for (auto& s : ss) if (s.l <= x && x <= s.r) { i64 v = s.a * x + s.c; if (!e || v > *e) e = v; } EQ(t.query(x), e); }
}
PBT(slope_trick_large, 3, "every case: 10^5 pieces") {
    int n = 100000; Bulk b(g); g.nontrivial(); suisen::SlopeTrick<i64> t; std::vector<i64> p(n); int how = g.raw(3); for (int i = 0; i < n; ++i) { p[i] = how == 0 ? i : how == 1 ? n - i : b.range(-1000000000, 1000000000); t.add_abs(p[i]); }
    auto s = sorted(p); i64 med = s[n / 2], e = 0; for (i64 x : s) e += std::abs(x - med); EQ(t.min(), e); auto [l, r] = t.argmin_range(); EQ(l, s[n / 2 - 1]); EQ(r, s[n / 2]);
    // a monotone sequence at least total change: the classical use
    suisen::SlopeTrick<i64> u; std::priority_queue<i64> h; i64 cost = 0; for (i64 x : p) { u.cumulative_min_left(); u.add_abs(x); h.push(x); if (h.top() > x) { cost += h.top() - x; h.pop(); h.push(x); } } EQ(u.min(), cost);
}
static std::vector<i64> convexv(Bulk& b, int n, i64 s) { auto d = b.vec(n - 1, -s, s); std::sort(d.begin(), d.end()); std::vector<i64> a(n); for (int i = 1; i < n; ++i) a[i] = a[i - 1] + d[i - 1]; return a; }
PBT(min_plus_large, 3, "every case: more than 2^16 terms") {
    int n = big_n(g, 140000), m = big_n(g, 140000); Bulk b(g); g.nontrivial(); i64 s = g.pick<i64>({ 1, 1000000000 }); auto x = convexv(b, n, s), y = convexv(b, m, s); bool cc = g.coin(); if (!cc) y = b.vec(m, -s * 1000, s * 1000);
    auto r = suisen::min_plus_convolution_convex_arbitrary(x, y); EQ((int)r.size(), n + m - 1); if (cc) { std::vector<i64> d; for (int i = 1; i < n; ++i) d.push_back(x[i] - x[i - 1]); for (int i = 1; i < m; ++i) d.push_back(y[i] - y[i - 1]); std::sort(d.begin(), d.end()); std::vector<i64> e{ x[0] + y[0] }; for (i64 z : d) e.push_back(e.back() + z); EQ(r, e); EQ(suisen::min_plus_convolution_convex_convex(x, y), e); }
    for (int q = 0; q < 100; ++q) { int k = b.in(0, n + m - 2); i64 e = INT64_MAX; for (int i = std::max(0, k - m + 1); i <= std::min(k, n - 1); ++i) e = std::min(e, x[i] + y[k - i]); EQ(r[k], e); }
    // column minima of a totally monotone matrix given by a formula
    auto mm = suisen::monotone_minima(n, m, [&](size_t i, size_t j) { i64 d = i64(i) * m / n - i64(j); return d * d; }); for (int i = 0; i < n; ++i) EQ(i64(mm[i]), i64(i) * m / n);
}
