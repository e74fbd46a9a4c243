#include "common.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
using namespace hv;
using T = suisen::RangeChMinMaxAddRangeSum<i64>;
static bool sum_le(T::DataType d) { return d.get_sum() <= 20; }
PBT(history, 30000, "at least three updates of at least two kinds", 8, 16) {
    int n = g.size(1, 33); i64 V = g.pick<i64>({ 4, 20, 1000000000000LL }); std::vector<i64> a(n);
    bool z = g.raw(8) == 0; if (!z) for (auto& x : a) x = g.range(-V, V);
    T t = z ? T(n) : T(a); int upd = 0; std::set<int> kinds; g.note("a=", a);
    for (int q = g.size(1, 30); q--;) {
        auto [l, r] = g.seg(n); i64 v = g.range(-V, V); int k = g.raw(8); g.note("op", k, l, r, v);
        switch (k) {
            case 0: t.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); break;
            case 1: t.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); break;
            case 2: t.add(l, r, v); for (int i = l; i < r; ++i) a[i] += v; break;
            case 3: t.update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; break;
            case 4: EQ(t.sum(l, r), std::accumulate(a.begin() + l, a.begin() + r, i64(0))); break;
            case 5: if (l < r) { EQ(t.max(l, r), *std::max_element(a.begin() + l, a.begin() + r)); EQ(t.min(l, r), *std::min_element(a.begin() + l, a.begin() + r)); } break;
            case 6: if (l < r) {
                auto d = t.prod(l, r); std::vector<i64> b(a.begin() + l, a.begin() + r); std::sort(b.begin(), b.end());
                EQ(i64(d.get_min()), b[0]); EQ(i64(d.get_max()), b.back()); EQ(i64(d.get_min_num()), i64(std::count(b.begin(), b.end(), b[0]))); EQ(i64(d.get_max_num()), i64(std::count(b.begin(), b.end(), b.back())));
                auto u = uniq(b); if (u.size() > 1) { EQ(i64(d.get_second_min()), u[1]); EQ(i64(d.get_second_max()), u[u.size() - 2]); }
            } break;
            default: { // search on sums is monotone only for non-negative contents
                if (*std::min_element(a.begin(), a.end()) < 0) break;
                i64 lim = g.coin() ? 20 : g.range(0, V); int p = g.raw(n + 1), e = p; i64 s = 0; while (e < n && s + a[e] <= lim) s += a[e++];
                auto f = [&](const T::DataType& d) { return d.get_sum() <= lim; };
                EQ(t.max_right(p, f), e); s = 0; e = p; while (e > 0 && s + a[e - 1] <= lim) s += a[--e]; EQ(t.min_left(p, f), e); g.label("search");
            }
        }
        if (k < 4 && l < r) ++upd, kinds.insert(k);
        if (upd > 2 && kinds.size() > 1) g.nontrivial();
    }
    for (int i = 0; i < n; ++i) EQ(t.sum(i, i + 1), a[i]);
}
