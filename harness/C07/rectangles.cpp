#include "common.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
using namespace hv;
struct R { int l, r, d, u; i64 w; };
static R rect(Gen& g, int M) { int a = g.range(-M, M), b = g.range(-M, M), c = g.range(-M, M), d = g.range(-M, M); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); R q{ a, b, c, d, g.range(-99, 99) }; g.note("rect", q.l, q.r, q.d, q.u, q.w); return q; }
static i64 overlap(const R& a, const R& b) { i64 x = std::min(a.r, b.r) - std::max(a.l, b.l), y = std::min(a.u, b.u) - std::max(a.d, b.d); return x > 0 && y > 0 ? x * y : 0; }
PBT(rectangle_add_rectangle_sum, 15000, "a query overlapping at least two added rectangles", 8, 13) {
    int k = g.size(0, 10), M = g.pick<int>({ 3, 20, 10000 }); std::vector<R> rs; for (int i = 0; i < k; ++i) rs.push_back(rect(g, M));
    suisen::RectangleAddRectangleSum<i64> t(2 * k + g.raw(3)); for (auto& r : rs) t.register_add_query_rectangle(r.l, r.r, r.d, r.u); t.build(); std::vector<R> done;
    for (int q = g.size(1, 25); q--;) {
        if (g.coin() && k) { R r = rs[g.raw(k)]; r.w = g.range(-99, 99); t.add(r.l, r.r, r.d, r.u, r.w); done.push_back(r); }
        else { R z = rect(g, M + 2); i64 e = 0; int c = 0; for (auto& r : done) { i64 o = overlap(r, z); e += o * r.w; c += o > 0; } EQ(t.sum(z.l, z.r, z.d, z.u), e); if (c > 1) g.nontrivial(); }
    }
}
PBT(static_rectangle_add_rectangle_sum, 20000, "a query overlapping at least two added rectangles", 8, 12) {
    int M = g.pick<int>({ 3, 20, 10000 }); std::vector<R> rs(g.size(0, 12)), qs(g.size(0, 10)); for (auto& r : rs) r = rect(g, M); for (auto& r : qs) r = rect(g, M + 1);
    std::vector<suisen::AddQuery<Z>> aq; std::vector<suisen::SumQuery> sq; for (auto& r : rs) aq.emplace_back(r.l, r.r, r.d, r.u, Z(r.w)); for (auto& r : qs) sq.emplace_back(r.l, r.r, r.d, r.u);
    auto res = suisen::static_rectangle_add_rectangle_sum<Z>(aq, sq); CK(res.size() == qs.size());
    for (size_t i = 0; i < qs.size(); ++i) { Z e = 0; int c = 0; for (auto& r : rs) { i64 o = overlap(r, qs[i]); e += Z(o) * Z(r.w); c += o > 0; } EQ(res[i], e); if (c > 1) g.nontrivial(); }
}
PBT(offline_rectangle_add_point_get, 25000, "a point covered by at least two rectangles at query time", 8, 19) {
    int M = g.pick<int>({ 3, 10, 100000 }); suisen::OfflineRectangleAddPointGet<i64> t; std::vector<R> rs; std::vector<i64> exp;
    for (int q = g.size(0, 50); q--;) {
        if (g.coin()) { R r = rect(g, M); t.add(r.l, r.r, r.d, r.u, r.w); rs.push_back(r); }
        else { int x, y; if (rs.size() && g.coin()) { auto& r = rs[g.raw(rs.size())]; x = g.coin() ? r.l : r.r; y = g.coin() ? r.d : r.u; x -= g.raw(2); y -= g.raw(2); } else x = g.range(-M, M), y = g.range(-M, M);
            g.note("get", x, y); t.get(x, y); i64 e = 0; int c = 0; for (auto& r : rs) if (r.l <= x && x < r.r && r.d <= y && y < r.u) e += r.w, ++c; exp.push_back(e); if (c > 1) g.nontrivial(); }
    }
    EQ(t.solve(), exp);
}
