#include "common.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using namespace hv;
struct M { // labels
    std::vector<int> c; M(int n = 0) : c(n) { std::iota(c.begin(), c.end(), 0); }
    bool merge(int x, int y) { int a = c[x], b = c[y]; if (a == b) return false; for (auto& z : c) if (z == a) z = b; return true; }
    bool same(int x, int y) const { return c[x] == c[y]; }
    std::vector<int> comp(int x) const { std::vector<int> v; for (int i = 0; i < (int)c.size(); ++i) if (c[i] == c[x]) v.push_back(i); return v; }
    std::vector<std::vector<int>> groups() const { std::vector<std::vector<int>> e(c.size()); for (int i = 0; i < (int)c.size(); ++i) e[c[i]].push_back(i); e.erase(std::remove_if(e.begin(), e.end(), [](auto& z) { return z.empty(); }), e.end()); return sorted(e); }
};
template <class G> static std::vector<std::vector<int>> canon(G gr) { std::vector<std::vector<int>> r; for (auto z : gr) { std::sort(z.begin(), z.end()); r.push_back(z); } return sorted(r); }
template <class T> static void basics(Gen& g, T& t, const M& m, int n) {
    int x = g.raw(n), y = g.raw(n); g.note("query", x, y); EQ(t.same(x, y), m.same(x, y)); EQ(t.size(x), (int)m.comp(x).size()); int r = t.root(x); CK(0 <= r && r < n); CK(m.same(r, x)); EQ(t[x], r); EQ(t.root(r), r);
    if (m.same(x, y)) EQ(t.root(y), r);
    if (g.chance(1, 4)) EQ(canon(t.groups()), m.groups());
}
PBT(plain_and_linked, 20000, "a component of size at least three", 8, 23) {
    int n = g.size(1, 24); suisen::UnionFind t(n); suisen::LinkedUnionFind u(n); M m(n); g.note("n=", n);
    for (int q = g.size(1, 40); q--;) {
        if (g.coin()) { int x = g.raw(n), y = g.raw(n); g.note("merge", x, y); bool e = m.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); if (m.comp(x).size() > 2) g.nontrivial(); }
        else { basics(g, t, m, n); basics(g, u, m, n); int x = g.raw(n); EQ(sorted(u.connected_component(x)), m.comp(x)); CK(u.connected_component(x)[0] == x); }
    }
    EQ(canon(t.groups()), m.groups()); EQ(canon(u.groups()), m.groups());
}
static void addto(i64& a, i64 b) { a += b; }
PBT(component_sum, 15000, "a component of size at least three", 8, 31) {
    int n = g.size(1, 20); std::vector<i64> a = g.vec<i64>(n, -99, 99); bool f = g.chance(1, 5); if (f) a.assign(n, 7); using T = suisen::UnionFindComponentSum<i64, addto>; T t = f ? T(n, 7) : T(a); M m(n); g.note("a", a);
    for (int q = g.size(1, 40); q--;) {
        int x = g.raw(n), y = g.raw(n);
        if (g.coin()) { g.note("merge", x, y); bool e = m.merge(x, y); EQ(t.merge(x, y), e); if (m.comp(x).size() > 2) g.nontrivial(); }
        else { basics(g, t, m, n); i64 s = 0; for (int v : m.comp(x)) s += a[v]; EQ(t.sum(x), s); }
    }
}
static void zadd(Z& a, Z b) { a += b; } static Z zneg(Z a) { return -a; } static void zmap(A f, Z& s, int n) { s = f.a * s + f.b * Z(n); } static A ainv(A f) { Z i = f.a.inv(); return { i, -(i * f.b) }; }
PBT(lazy, 15000, "an operator on a component of size at least three", 8, 12) {
    using T = suisen::UnionFindLazy<Z, zadd, zneg, A, zmap, a_comp, a_id, ainv>; int n = g.size(1, 16); std::vector<Z> a(n); for (auto& x : a) x = g.raw(50); T t(a); M m(n); g.note("a", a);
    auto gf = [&] { A f = gen_aff(g); if (f.a == Z(0)) f.a = 2; return f; };
    for (int q = g.size(1, 40); q--;) {
        int x = g.raw(n), y = g.raw(n);
        switch (g.raw(8)) {
        case 0: case 1: case 2: { g.note("merge", x, y); bool e = m.merge(x, y); EQ(t.merge(x, y), e); } break;
        case 3: { A f = gf(); g.note("apply_component", x, f); t.apply_component(x, f); auto c = m.comp(x); for (int v : c) a[v] = a_app(f, a[v]); if (c.size() > 2) g.nontrivial(); } break;
        case 4: { A f = gf(); g.note("apply_point", x, f); t.apply_point(x, f); a[x] = a_app(f, a[x]); } break;
        case 5: { Z v = g.raw(99); g.note("set_point", x, v); t.set_point(x, v); a[x] = v; } break;
        case 6: { g.note("propagate", x); t.propagate(x); for (int v : m.comp(x)) EQ(t.raw_value(v), a[v]); } break;
        default: { g.note("get", x); Z s = 0; for (int v : m.comp(x)) s += a[v]; EQ(t.get_component(x), s); EQ(t.get_point(x), a[x]); basics(g, t, m, n); EQ(sorted(t.connected_component(x)), m.comp(x)); } break;
        }
    }
    for (int x = 0; x < n; ++x) { EQ(t.get_point(x), a[x]); Z s = 0; for (int v : m.comp(x)) s += a[v]; EQ(t.get_component(x), s); }
}
// potentials: phi(y) = phi(x) * d ; diff(x, y) = phi(x)^-1 phi(y)
PBT(weighted, 15000, "a diff query across at least two merges", 8, 13) {
    int n = g.size(1, 20); suisen::WeightedUnionFind<i64> t(n); std::vector<i64> pot = g.vec<i64>(n, -1000, 1000); M m(n); g.note("n=", n);
    for (int q = g.size(1, 40); q--;) {
        int x = g.raw(n), y = g.raw(n);
        if (g.coin()) { g.note("merge", x, y); bool e = m.merge(x, y); i64 d = pot[y] - pot[x]; if (!e && g.coin()) d += 5; EQ(t.merge(x, y, d), e); }
        else { basics(g, t, m, n); if (m.same(x, y)) { EQ(t.diff(x, y), pot[y] - pot[x]); if (x != y && m.comp(x).size() > 2) g.nontrivial(); } }
    }
}
PBT(weighted_noncommutative, 15000, "a diff query across at least two merges", 8, 32) {
    int n = g.size(1, 20); suisen::WeightedUnionFind<A, a_comp, a_id, ainv> t(n); std::vector<A> pot(n); for (auto& f : pot) { f = gen_aff(g); if (f.a == Z(0)) f.a = 3; } M m(n); g.note("n=", n);
    for (int q = g.size(1, 40); q--;) {
        int x = g.raw(n), y = g.raw(n); A d = a_comp(ainv(pot[x]), pot[y]);
        if (g.coin()) { g.note("merge", x, y); bool e = m.merge(x, y); EQ(t.merge(x, y, d), e); }
        else { basics(g, t, m, n); if (m.same(x, y)) { EQ(t.diff(x, y), d); if (x != y && m.comp(x).size() > 2) g.nontrivial(); } }
    }
}
using St = std::vector<i64>; static void st_merge(St& a, const St& b) { a.push_back(a.back() + b.back()); } static void st_undo(St& a) { a.pop_back(); }
PBT(undo, 15000, "an undo or rollback followed by another merge", 8, 29) {
    int n = g.size(1, 20); suisen::UndoUnionFind t(n); std::vector<i64> a = g.vec<i64>(n, -99, 99); std::vector<St> init; for (auto x : a) init.push_back({ x }); suisen::UndoUnionFindComponentSum<St, st_merge, st_undo> u(init);
    std::vector<M> h{ M(n) }; bool undone = false; g.note("n=", n);
    for (int q = g.size(1, 50); q--;) {
        int x = g.raw(n), y = g.raw(n);
        switch (g.raw(10)) {
        case 0: case 1: case 2: case 3: { g.note("merge", x, y); M m = h.back(); bool e = m.merge(x, y); EQ(t.merge(x, y), e); EQ(u.merge(x, y), e); if (e) { h.push_back(m); if (undone) g.nontrivial(); } } break;
        case 4: case 5: if (h.size() > 1) { g.note("undo"); t.undo(); u.undo(); h.pop_back(); undone = true; } break;
        case 6: if (g.coin()) { g.note("rollback"); t.rollback(); u.rollback(); h.resize(1); undone = true; } else { g.note("snapshot"); t.snapshot(); u.snapshot(); h = { h.back() }; } break;
        default: { basics(g, t, h.back(), n); basics(g, u, h.back(), n); i64 s = 0; for (int v : h.back().comp(x)) s += a[v]; EQ(u.sum(x).back(), s); } break;
        }
    }
}
PBT(merge_history_forest, 12000, "a group is asked for at an earlier time", 8, 14) {
    int n = g.size(1, 14); suisen::MergeHistoryForest t(n); std::vector<M> h{ M(n) }; g.note("n=", n);
    for (int q = g.size(1, 14); q--;) {
        M m = h.back();
        if (g.coin()) { int x = g.raw(n), y = g.raw(n); g.note("merge", x, y); if (g.coin()) t.merge(x, y); else t.merge(std::pair<int, int>(x, y)); m.merge(x, y); }
        else { std::vector<std::pair<int, int>> es(g.raw(5)); for (auto& [x, y] : es) x = g.raw(n), y = g.raw(n), m.merge(x, y); g.note("simul", es); t.merge_simultaneously(es); }
        h.push_back(m); EQ(t.current_time(), (int)h.size() - 1);
        EQ(t.leaf_num(), n); int V = t.node_num(); CK(V >= n);
    }
    int V = t.node_num(); auto parent = [&](int v) { return t.forest_parent(v); };
    auto lca = [&](int a, int b) { std::set<int> s; for (; a >= 0; a = parent(a)) s.insert(a); while (!s.count(b)) b = parent(b); return b; };
    // forest shape: children point back, roots match components
    for (int v = 0; v < V; ++v) { EQ(t.is_forest_root(v), parent(v) < 0); EQ(t.is_forest_leaf(v), v < n); CK(t.is_forest_leaf(v) == t.forest_children(v).empty()); for (int c : t.forest_children(v)) { EQ(parent(c), v); CK(t.created_time(c) <= t.created_time(v)); } CK((int)t.get_forest().size() == V); }
    std::vector<int> roots = sorted(t.forest_roots()), er; for (int v = 0; v < V; ++v) if (parent(v) < 0) er.push_back(v); EQ(roots, er); EQ((int)roots.size(), (int)h.back().groups().size());
    for (int i = 0; i < n; ++i) { int r = i; while (parent(r) >= 0) r = parent(r); EQ(t.forest_root(i), r); }
    for (int rep = 0; rep < 6; ++rep) {
        int tm = g.raw(h.size()), x = g.raw(n), y = g.raw(n); if (tm + 1 < (int)h.size() && h[tm].comp(x) != h.back().comp(x)) g.nontrivial(); g.note("at", tm, x, y);
        EQ(sorted(t.group(x, tm)), h[tm].comp(x)); EQ(sorted(t.group(x)), h.back().comp(x)); EQ(t.same(x, y, tm, lca), h[tm].same(x, y)); EQ(t.same(x, y), h.back().same(x, y));
        EQ(canon(t.groups(tm)), h[tm].groups());
    }
    EQ(canon(t.groups(std::numeric_limits<int>::max())), h.back().groups());
}
