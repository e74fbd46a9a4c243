#include "common.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/optimization/alien_dp.hpp"
#include "library/convolution/min_plus_convolution.hpp"
using namespace hv;
template <class T, bool mn, class R> static R ev(const std::vector<std::pair<T, T>>& ls, T x) { R b = 0; bool f = true; for (auto [p, q] : ls) { R v = R(p) * R(x) + R(q); if (f || (mn ? v < b : v > b)) b = v, f = false; } return b; }
template <class T, bool mn> static void cht(Gen& g, i64 lim) {
    suisen::ConvexHullTrick<T, mn> t; std::vector<std::pair<T, T>> ls; CK(!t.has_line()); auto val = [&]() -> T { return T(g.raw(3) ? g.range(-8, 8) : g.edgy(-lim, lim)); };
    for (int q = g.size(1, 60); q--;) {
        if (ls.empty() || g.coin()) { T a = val(), b = val(); if (ls.size() && g.chance(1, 4)) { auto [p, r] = ls[g.raw(ls.size())]; a = p; b = T(r + g.range(-1, 1)); } g.note("add ", a, " ", b); t.add_line(a, b); ls.emplace_back(a, b); }
        for (int k = 3; k--;) { T x = val(); g.note("at ", x); auto e = ev<T, mn, i128>(ls, x); EQ(i128(t.query(x)), e); }
        CK(t.has_line()); if (ls.size() > 4) g.nontrivial();
    }
}
PBT(cht_min_i64, 12000, "at least five lines", 8, 13) { cht<i64, true>(g, 1000000000000000000ll); }
PBT(cht_max_i64, 8000, "at least five lines", 8, 12) { cht<i64, false>(g, 1000000000000000000ll); }
PBT(cht_int, 8000, "at least five lines", 8, 12) { if (g.coin()) cht<int, true>(g, 1000000000); else cht<int, false>(g, 1000000000); }
PBT(cht_double, 8000, "at least five lines", 8, 12) { // integer-valued doubles of small size: only rounding at the breakpoints, where both lines agree up to rounding
    suisen::MinCHT<double> t; suisen::MaxCHT<double> u; std::vector<std::pair<i64, i64>> ls;
    for (int q = g.size(1, 40); q--;) { i64 a = g.range(-50, 50), b = g.range(-1000, 1000); t.add_line(a, b); u.add_line(a, b); ls.emplace_back(a, b); g.note("add ", a, " ", b); for (int k = 3; k--;) { i64 x = g.range(-1000, 1000); double e = ev<i64, true, i64>(ls, x), f = ev<i64, false, i64>(ls, x); CKM(std::abs(t.query(x) - e) <= 1e-6, "min at " + std::to_string(x)); CKM(std::abs(u.query(x) - f) <= 1e-6, "max at " + std::to_string(x)); } if (ls.size() > 4) g.nontrivial(); }
}
template <class T, bool mn, class Tag> static void mono(Gen& g, int dir) {
    suisen::MonotonicCHT<T, mn, Tag> t; std::vector<std::pair<T, T>> ls; T lo = 0, hi = 0; const bool big = g.chance(1, 3); i64 S = big ? 1000000 : 8, I = big ? 1000000000000ll : 12; T x = T(dir > 0 ? -S : S);
    for (int q = g.size(1, 60); q--;) {
        if (ls.empty() || g.coin()) { T b = T(g.range(-I, I)), a; if (ls.empty()) a = lo = hi = T(g.range(-S, S)); else { T d = T(g.raw(big ? S : 3)); if (g.coin()) a = lo = lo - d; else a = hi = hi + d; } g.note("add ", a, " ", b); t.add_line(a, b); ls.emplace_back(a, b); }
        else { if (dir == 0) x = T(g.range(-S, S)); else x += T(dir) * T(g.raw(big ? S : 3)); g.note("at ", x); EQ(t.query(x), (ev<T, mn, T>(ls, x))); if (ls.size() > 4) g.nontrivial(); }
    }
}
PBT(monotonic_cht_inc, 10000, "a query with at least five lines", 8, 12) { if (g.coin()) mono<i64, true, suisen::inc_query_tag>(g, 1); else mono<i64, false, suisen::inc_query_tag>(g, 1); }
PBT(monotonic_cht_dec, 10000, "a query with at least five lines", 8, 12) { if (g.coin()) mono<i64, true, suisen::dec_query_tag>(g, -1); else mono<i64, false, suisen::dec_query_tag>(g, -1); }
PBT(monotonic_cht_any, 10000, "a query with at least five lines", 8, 12) { if (g.coin()) mono<i64, true, suisen::non_monotonic_query_tag>(g, 0); else mono<i64, false, suisen::non_monotonic_query_tag>(g, 0); }
PBT(monotonic_cht_double, 10000, "a query with at least five lines", 8, 12) { switch (g.raw(4)) { case 0: mono<double, true, suisen::inc_query_tag>(g, 1); break; case 1: mono<double, true, suisen::dec_query_tag>(g, -1); break; case 2: mono<double, false, suisen::inc_query_tag>(g, 1); break; default: mono<double, true, suisen::non_monotonic_query_tag>(g, 0); } }
template <class T, bool mn> static void lichao(Gen& g) {
    int n = g.size(0, 40); i64 L = g.pick<i64>({ 5, 50, 1000000000 }); std::vector<T> xs(n); for (auto& x : xs) x = T(g.range(-L, L)); g.note("xs", xs); suisen::LiChaoSegmentTree<T, mn> t(xs); struct S { T l, r, a, b; bool line; }; std::vector<S> ss;
    for (int q = g.size(0, 40); q--;) {
        S s{ T(g.range(-L, L)), T(g.range(-L, L)), T(g.range(-20, 20)), T(g.range(-100, 100)), g.coin() }; if (n && g.coin()) s.l = xs[g.raw(n)]; if (n && g.coin()) s.r = xs[g.raw(n)]; if (g.chance(7, 8) && s.l > s.r) std::swap(s.l, s.r);
        if (s.line) t.add_line(s.a, s.b); else t.add_segment(s.l, s.r, s.a, s.b); ss.push_back(s); g.note(s.line ? "line" : "seg", " ", s.l, " ", s.r, " ", s.a, " ", s.b); if (ss.size() > 3 && n > 3) g.nontrivial();
        for (int k = 3; k-- && n;) { T x = xs[g.raw(n)]; std::optional<T> e; for (auto& s : ss) if (s.line || (s.l <= x && x <= s.r)) { T v = s.a * x + s.b; if (!e || (mn ? v < *e : v > *e)) e = v; } g.note("at ", x); EQ(t(x), e); EQ(t.query(x), e); }
    }
}
PBT(li_chao_min, 10000, "at least four segments over at least four points", 8, 15) { lichao<i64, true>(g); }
PBT(li_chao_max, 10000, "at least four segments over at least four points", 8, 12) { lichao<i64, false>(g); }
PBT(li_chao_double, 6000, "at least four segments over at least four points", 8, 12) { if (g.coin()) lichao<double, true>(g); else lichao<double, false>(g); }
PBT(slope_trick, 15000, "at least three pieces were added and a window / shift operation applied", 8, 28) {
    // model: f on a wide integer window, breakpoints stay inside the middle of it
    const int W = 60; auto F = [&](const std::vector<i64>& f, int x) { return f[x + W]; }; (void)F; suisen::SlopeTrick<i64> t; std::vector<i64> f(2 * W + 1, 0); int pieces = 0, ops = 0; int reach = 0;
    // exact piecewise-linear model: breakpoints kept as explicit lists, evaluated on demand
    std::vector<i64> neg, pos; i64 base = 0; // f(x) = base + sum max(0, n - x) + sum max(0, x - p), kept as general convex function on grid
    for (int q = g.size(1, 25); q--;) {
        i64 a = g.range(-8, 8); int op = g.raw(10); g.note("op ", op, " a ", a); std::vector<i64> h(f);
        auto at = [&](i64 x) -> i64 { // linear extrapolation outside the grid (all breakpoints are inside)
            if (x < -W) return f[0] + (f[0] - f[1]) * (-W - x); if (x > W) return f[2 * W] + (f[2 * W] - f[2 * W - 1]) * (x - W); return f[x + W]; };
        switch (op) {
        case 0: case 1: t.add_abs(a); for (int x = -W; x <= W; ++x) h[x + W] += std::abs(x - a); pieces++; break;
        case 2: case 3: t.add_right(a); for (int x = -W; x <= W; ++x) h[x + W] += std::max<i64>(0, x - a); pieces++; break;
        case 4: case 5: t.add_left(a); for (int x = -W; x <= W; ++x) h[x + W] += std::max<i64>(0, a - x); pieces++; break;
        case 6: t.add_const(a); for (auto& v : h) v += a; break;
        case 7: { if (reach > 30) continue; i64 d = g.range(-3, 3); g.note(" d ", d); reach += 3; switch (g.raw(3)) { case 0: t.translate(d); break; case 1: t >>= d; break; default: t <<= -d; } for (int x = -W; x <= W; ++x) h[x + W] = at(x - d); ops++; } break;
        case 8: { if (reach > 30) continue; i64 lo = g.range(-3, 3), hi = lo + g.range(0, 4); g.note(" w ", lo, " ", hi); reach += 7; t.sliding_window_minimum(lo, hi); for (int x = -W; x <= W; ++x) { i64 b = at(x - lo); for (i64 y = x - hi; y <= x - lo; ++y) b = std::min(b, at(y)); h[x + W] = b; } ops++; } break;
        default: if (!g.chance(1, 3)) continue; if (g.coin()) { g.note(" cml"); t.cumulative_min_left(); for (int x = -W + 1; x <= W; ++x) h[x + W] = std::min(h[x + W], h[x + W - 1]); } else { g.note(" cmr"); t.cumulative_min_right(); for (int x = W - 1; x >= -W; --x) h[x + W] = std::min(h[x + W], h[x + W + 1]); } ops++;
        }
        f = h; if (pieces > 2 && ops) g.nontrivial();
        i64 m = *std::min_element(f.begin(), f.end()); EQ(t.min(), m); int l = 0, r = 2 * W; while (f[l] != m) ++l; while (f[r] != m) --r; auto [al, ar] = t.argmin_range();
        if (l > 0) EQ(al, i64(l - W)); else CK(al < -W); if (r < 2 * W) EQ(ar, i64(r - W)); else CK(ar > W);
        auto [ng, b, ps] = t.lines(); EQ(b, m); CK(std::is_sorted(ng.begin(), ng.end())); CK(std::is_sorted(ps.begin(), ps.end())); for (int x = -W; x <= W; ++x) { i64 v = b; for (i64 c : ng) if (c > -1000000000) v += std::max<i64>(0, c - x); for (i64 c : ps) if (c < 1000000000) v += std::max<i64>(0, x - c); if (v != f[x + W]) EQ(v, f[x + W]); }
    }
}
static std::vector<i64> convexv(Gen& g, int n, i64 s) { std::vector<i64> d = g.vec<i64>(std::max(0, n - 1), -s, s), a(n); std::sort(d.begin(), d.end()); if (n) a[0] = g.range(-s, s); for (int i = 1; i < n; ++i) a[i] = a[i - 1] + d[i - 1]; return a; }
PBT(min_plus, 20000, "both lengths at least three", 8, 12) {
    i64 s = g.pick<i64>({ 0, 2, 30, 1000000000000ll }); auto a = convexv(g, g.size(1, 25), s); bool cc = g.coin(); auto b = cc ? convexv(g, g.size(1, 25), s) : g.vec<i64>(g.size(1, 25), -s, s); int n = a.size(), m = b.size(); g.note("a", a, " b", b); std::vector<i64> e(n + m - 1, LLONG_MAX); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) e[i + j] = std::min(e[i + j], a[i] + b[j]);
    EQ(suisen::min_plus_convolution_convex_arbitrary(a, b), e); if (cc) EQ(suisen::min_plus_convolution_convex_convex(a, b), e); if (n > 2 && m > 2) g.nontrivial();
}
PBT(monotone_minima, 12000, "at least three rows and columns", 8, 12) {
    int n = g.size(0, 20), m = g.size(1, 20); i64 s = g.pick<i64>({ 0, 1, 5, 100 }); std::vector<std::vector<i64>> A(n, std::vector<i64>(m)), D = A; auto row = g.vec<i64>(n, -s * 3, s * 3), col = g.vec<i64>(m, -s * 3, s * 3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { D[i][j] = -g.range(0, s) + (i ? D[i - 1][j] : 0) + (j ? D[i][j - 1] : 0) - (i && j ? D[i - 1][j - 1] : 0); A[i][j] = D[i][j] + row[i] + col[j]; } if (n > 2 && m > 2) g.nontrivial(); g.note("A", A);
    auto r1 = suisen::monotone_minima(n, m, [&](size_t i, size_t j) { return A[i][j]; }), r2 = suisen::monotone_minima(n, m, [&](size_t i, size_t j, size_t k) { CK(j < k && k < (size_t)m && i < (size_t)n); return A[i][j] <= A[i][k]; }); EQ((int)r1.size(), n); EQ((int)r2.size(), n);
    for (int i = 0; i < n; ++i) { int b = 0; for (int j = 1; j < m; ++j) if (A[i][j] < A[i][b]) b = j; EQ(A[i][r1[i]], A[i][b]); EQ(r2[i], b); EQ(r1[i], b); }
}
PBT(alien, 20000, "a point with at least three others and nonlinear function", 8, 12) {
    int n = g.size(1, 20); i64 s = g.pick<i64>({ 0, 2, 20, 1000000000 }); auto f = convexv(g, n, s); i64 lo = -s - g.range(0, 2), hi = s + g.range(0, 2); int x = g.raw(n); if (n > 3 && s) g.nontrivial(); g.note("f", f, " x ", x, " ", lo, " ", hi);
    auto mn = [&](i64 p) { std::pair<i64, int> b{ f[0], 0 }; for (int i = 1; i < n; ++i) if (f[i] - p * i < b.first) b = { f[i] - p * i, i }; return b; };
    EQ(suisen::alien_convex<i64>(x, lo, hi, [&](i64 p) -> i64 { return mn(p).first; }), f[x]); EQ(suisen::alien_convex<i64>(x, lo, hi, [&](i64 p) -> std::pair<i64, int> { return mn(p); }), f[x]);
    for (auto& v : f) v = -v; auto mx = [&](i64 p) { std::pair<i64, int> b{ f[0], 0 }; for (int i = 1; i < n; ++i) if (f[i] - p * i >= b.first) b = { f[i] - p * i, i }; return b; };
    EQ(suisen::alien_concave<i64>(x, lo, hi, [&](i64 p) -> i64 { return mx(p).first; }), f[x]); EQ(suisen::alien_concave<i64>(x, lo, hi, [&](i64 p) -> std::pair<i64, int> { return mx(p); }), f[x]);
}
