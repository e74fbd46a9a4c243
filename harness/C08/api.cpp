#include "common.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
using namespace hv;
static void iadd(i64& a, i64 b) { a += b; } static i64 ineg(i64 x) { return -x; } static void imap(i64 f, i64& s, int n) { s += f * n; } static i64 icomp(i64 f, i64 g) { return f + g; } static i64 iid() { return 0; }
PBT(lazy_filled, 6000, "a component of at least three gets an operator", 8, 12) {
    using T = suisen::UnionFindLazy<i64, iadd, ineg, i64, imap, icomp, iid, ineg>; int n = g.size(0, 14); i64 v0 = g.range(-5, 5); bool d = g.coin(); T t = d ? T(n) : T(n, v0); std::vector<i64> a(n, d ? 0 : v0); std::vector<int> c(n); std::iota(c.begin(), c.end(), 0);
    for (int q = n ? g.size(1, 25) : 0; q--;) {
        int x = g.raw(n), y = g.raw(n); i64 f = g.range(-9, 9); int sz = std::count(c.begin(), c.end(), c[x]);
        switch (g.raw(5)) {
        case 0: { bool m = c[x] != c[y]; EQ(t.merge(x, y), m); int o = c[y]; for (auto& z : c) if (z == o) z = c[x]; } break;
        case 1: t.apply_component(x, f); for (int i = 0; i < n; ++i) if (c[i] == c[x]) a[i] += f; if (sz > 2) g.nontrivial(); break;
        case 2: t.apply_point(x, f); a[x] += f; break;
        case 3: t.propagate(x); for (int i = 0; i < n; ++i) if (c[i] == c[x]) { const T& ct = t; EQ(ct.raw_value(i), a[i]); EQ(t.raw_value(i), a[i]); } break;
        default: { i64 s = 0; for (int i = 0; i < n; ++i) if (c[i] == c[x]) s += a[i]; EQ(t.get_component(x), s); EQ(t.get_point(y), a[y]); }
        }
    }
}
struct St { std::vector<i64> h; }; static void smerge(St& a, const St& b) { a.h.push_back(a.h.back() + b.h.back()); } static void sundo(St& a) { a.h.pop_back(); }
PBT(undo_sum_filled, 4000, "an undo after two merges", 8, 12) {
    using U = suisen::UndoUnionFindComponentSum<St, smerge, sundo>; int n = g.size(1, 12); U u(n, St{ { 1 } }); std::vector<std::pair<int, int>> h; auto comp = [&](int x) { std::vector<int> c(n); std::iota(c.begin(), c.end(), 0); for (auto [p, q] : h) { int a = c[p], b = c[q]; for (auto& z : c) if (z == b) z = a; } return std::count(c.begin(), c.end(), c[x]); };
    for (int q = g.size(1, 20); q--;) {
        if (g.raw(3)) { int x = g.raw(n), y = g.raw(n); if (u.merge(x, y)) h.emplace_back(x, y); }
        else if (h.size()) { if (h.size() >= 2) g.nontrivial(); u.undo(); h.pop_back(); }
        int x = g.raw(n); const U& cu = u; EQ(cu.sum(x).h.back(), (i64)comp(x)); EQ(u.sum(x).h.back(), (i64)comp(x));
    }
}
