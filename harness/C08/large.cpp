#include "large.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using namespace hv;
// reference: labels with member lists, smaller list relabelled
struct M {
    std::vector<int> c; std::vector<std::vector<int>> m; M(int n) : c(n), m(n) { for (int i = 0; i < n; ++i) c[i] = i, m[i] = { i }; }
    bool merge(int x, int y) { int a = c[x], b = c[y]; if (a == b) return false; if (m[a].size() > m[b].size()) std::swap(a, b); for (int v : m[a]) c[v] = b, m[b].push_back(v); m[a].clear(); return true; }
    const std::vector<int>& comp(int x) const { return m[c[x]]; }
};
// merge orders that build deep structures: random, chain both ways, star, balanced pairs
static std::vector<std::pair<int, int>> merges(Bulk& b, int n, int how) {
    std::vector<std::pair<int, int>> r;
    switch (how) {
        case 0: for (int k = 0; k < n; ++k) r.emplace_back(b.in(0, n - 1), b.in(0, n - 1)); break;
        case 1: for (int i = 0; i + 1 < n; ++i) r.emplace_back(i, i + 1); break;
        case 2: for (int i = 0; i + 1 < n; ++i) r.emplace_back(i + 1, i); break;
        case 3: for (int i = 1; i < n; ++i) r.emplace_back(b.coin() ? 0 : i - 1, i); break;
        default: for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) r.emplace_back(i + b.in(0, w - 1), std::min(n - 1, i + w + b.in(0, w - 1)));
    }
    return r;
}
static void addto(i64& a, i64 b) { a += b; }
PBT(plain_large, 4, "every case: more than 2^16 vertices, deep merge orders") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto ms = merges(b, n, g.raw(5)); M m(n); suisen::UnionFind t(n); suisen::LinkedUnionFind u(n); auto a = b.vec(n, -1000000000000LL, 1000000000000LL); suisen::UnionFindComponentSum<i64, addto> s(a);
    for (size_t k = 0; k < ms.size(); ++k) { auto [x, y] = ms[k]; bool e = m.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); EQ(s.merge(x, y), e); if (k % 64 == 0) { x = b.in(0, n - 1), y = b.in(0, n - 1); EQ(t.same(x, y), m.c[x] == m.c[y]); EQ(u.size(x), (int)m.comp(x).size()); } if (k * 2 == ms.size() / 2 * 2) break; }
    auto full = [&] { for (int x = 0; x < n; ++x) { int z = m.comp(x)[0]; EQ(t.root(x), t.root(z)); EQ(t.size(x), (int)m.comp(x).size()); CK(u.same(x, z)); EQ(u.size(x), (int)m.comp(x).size()); } i64 tot = 0; for (int x = 0; x < n; ++x) if (m.comp(x)[0] == x) { i64 w = 0; for (int v : m.comp(x)) w += a[v]; EQ(s.sum(x), w); tot += m.comp(x).size(); } EQ(tot, (i64)n); EQ(t.groups().size(), u.groups().size()); };
    full(); for (auto [x, y] : ms) { bool e = m.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); EQ(s.merge(x, y), e); } full();
    int x = b.in(0, n - 1); EQ(sorted(u.connected_component(x)), sorted(m.comp(x)));
}
PBT(weighted_large, 4, "every case: more than 2^16 vertices, deep merge orders") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto ms = merges(b, n, g.raw(5)); M m(n); suisen::WeightedUnionFind<i64> t(n); auto p = b.vec(n, -1000000000000LL, 1000000000000LL);
    for (size_t k = 0; k < ms.size(); ++k) { auto [x, y] = ms[k]; EQ(t.merge(x, y, p[y] - p[x]), m.merge(x, y)); if (k % 8 == 0) { x = b.in(0, n - 1); auto& c = m.comp(x); y = c[b.raw(c.size())]; EQ(t.diff(x, y), p[y] - p[x]); } }
    for (int x = 0; x < n; ++x) { auto& c = m.comp(x); int y = c[b.raw(c.size())]; EQ(t.diff(x, y), p[y] - p[x]); EQ(t.size(x), (int)c.size()); }
}
using St = std::vector<i64>; static void st_merge(St& a, const St& b) { a.push_back(a.back() + b.back()); } static void st_undo(St& a) { a.pop_back(); }
PBT(undo_large, 3, "every case: more than 50000 vertices, half of the merges undone and redone") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); auto ms = merges(b, n, g.raw(5)); suisen::UndoUnionFind t(n); std::vector<St> i0; auto a = b.vec(n, -1000000000, 1000000000); for (i64 x : a) i0.push_back({ x }); suisen::UndoUnionFindComponentSum<St, st_merge, st_undo> u(i0);
    M h(n); size_t half = ms.size() / 2; for (size_t k = 0; k < half; ++k) { auto [x, y] = ms[k]; bool e = h.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); }
    auto chk = [&](M& m) { for (int k = 0; k < 3000; ++k) { int x = b.in(0, n - 1), y = b.in(0, n - 1); EQ(t.same(x, y), m.c[x] == m.c[y]); EQ(t.size(x), (int)m.comp(x).size()); EQ(u.same(x, y), m.c[x] == m.c[y]); } for (int k = 0; k < 5; ++k) { int x = b.in(0, n - 1); i64 s = 0; for (int v : m.comp(x)) s += a[v]; EQ(u.sum(x).back(), s); } };
    chk(h); for (int rep = 0; rep < 2; ++rep) { M m = h; int done = 0; for (size_t k = half; k < ms.size(); ++k) { auto [x, y] = ms[k]; bool e = m.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); done += e; } chk(m); while (done--) t.undo(), u.undo(); chk(h); }
}
static void zadd(Z& a, Z b) { a += b; } static Z zneg(Z a) { return -a; } static void zmap(A f, Z& s, int n) { s = f.a * s + f.b * Z(n); } static A ainv(A f) { Z i = f.a.inv(); return { i, -(i * f.b) }; }
PBT(lazy_large, 2, "every case: tens of thousands of vertices") {
    int n = big_n(g, 40000); Bulk b(g); g.nontrivial(); auto ms = merges(b, n, g.raw(5)); std::vector<Z> a(n); for (auto& x : a) x = b.raw(P); suisen::UnionFindLazy<Z, zadd, zneg, A, zmap, a_comp, a_id, ainv> t(a); M m(n); size_t work = 0;
    for (size_t k = 0; k < ms.size(); ++k) { auto [x, y] = ms[k]; EQ(t.merge(x, y), m.merge(x, y)); if (k % 4 == 0) { x = b.in(0, n - 1); if (work < 20000000) { work += m.comp(x).size(); A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t.apply_component(x, f); for (int v : m.comp(x)) a[v] = a_app(f, a[v]); } x = b.in(0, n - 1); EQ(t.get_point(x), a[x]); } }
    for (int x = 0; x < n; ++x) EQ(t.get_point(x), a[x]); for (int k = 0; k < 20; ++k) { int x = b.in(0, n - 1); Z s = 0; for (int v : m.comp(x)) s += a[v]; EQ(t.get_component(x), s); }
}
PBT(history_forest_large, 2, "every case: tens of thousands of merges") {
    int n = big_n(g, 60000); Bulk b(g); g.nontrivial(); auto ms = merges(b, n, g.raw(5)); suisen::MergeHistoryForest t(n); M m(n); for (auto [x, y] : ms) t.merge(x, y), m.merge(x, y);
    EQ(t.current_time(), (int)ms.size()); for (int x = 0; x < n; ++x) EQ(t.forest_root(x), t.forest_root(m.comp(x)[0])); int x = b.in(0, n - 1); EQ(sorted(t.group(x)), sorted(m.comp(x)));
    int tm = b.in(0, ms.size()); M h(n); for (int k = 0; k < tm; ++k) h.merge(ms[k].first, ms[k].second); EQ(sorted(t.group(x, tm)), sorted(h.comp(x))); auto gr = t.groups(tm); std::map<int, int> e; for (int i = 0; i < n; ++i) ++e[h.c[i]]; EQ(gr.size(), e.size()); for (auto& z : gr) EQ((int)z.size(), e[h.c[z[0]]]);
}
