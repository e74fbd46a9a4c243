#pragma once
#include "common.hpp"
using namespace hv;
enum { SEG = 2, LAZY = 4, REV = 16, PERS = 32 };
// ordered element with affine action (non-commutative fold)
struct V { S s; int n = 0; friend bool operator==(const V& a, const V& b) { return a.s == b.s && a.n == b.n; } friend bool operator!=(const V& a, const V& b) { return !(a == b); } friend std::ostream& operator<<(std::ostream& o, const V& v) { return o << v.s.s; } };
inline V v_of(i64 x) { return { s_of(x), 1 }; }
inline V v_op(V a, V b) { return { s_op(a.s, b.s), a.n + b.n }; }
inline V v_e() { return {}; }
inline bool len_bad = false;
inline V v_map(A f, V x, int len) { if (len != x.n) len_bad = true; return { s_map(f, x.s), x.n }; }
// commutative element for the reversible variant (plain sum)
struct C { Z s = 0; int n = 0; friend bool operator==(const C& a, const C& b) { return a.s == b.s && a.n == b.n; } friend bool operator!=(const C& a, const C& b) { return !(a == b); } friend std::ostream& operator<<(std::ostream& o, const C& v) { return o << v.s; } };
inline C c_of(i64 x) { return { Z(x), 1 }; }
inline C c_op(C a, C b) { return { a.s + b.s, a.n + b.n }; }
inline C c_e() { return {}; }
inline C c_map(A f, C x, int len) { if (len != x.n) len_bad = true; return { f.a * x.s + f.b * Z(len), x.n }; }

template <class X> struct Ops;
template <> struct Ops<V> { static V of(i64 x) { return v_of(x); } static V op(V a, V b) { return v_op(a, b); } static V ap(A f, V x) { return v_map(f, x, x.n); } };
template <> struct Ops<C> { static C of(i64 x) { return c_of(x); } static C op(C a, C b) { return c_op(a, b); } static C ap(A f, C x) { return c_map(f, x, x.n); } };

template <class N, class X, int F> void rbt_history(Gen& g) {
    using T = typename N::tree_type; using O = Ops<X>; using Vec = std::vector<X>;
    len_bad = false;
    N::init_pool(F & PERS ? 24000 : 3000);
    auto nv = [&] { return O::of(g.raw(3) ? (i64)g.raw(20) : (i64)g.raw(P)); };
    auto fold = [&](const Vec& a, int l, int r) { X s; for (int i = l; i < r; ++i) s = O::op(s, a[i]); return s; };
    auto dump = [&](T t) { Vec d; N::dump(t, std::back_inserter(d)); return d; };
    std::vector<std::pair<T, Vec>> ver;
    int k0 = 1 + g.raw(3);
    for (int k = 0; k < k0; ++k) { int n = g.size(0, !(F & PERS) && g.chance(1, 20) ? 150 : 30); Vec a; for (int i = 0; i < n; ++i) a.push_back(nv()); T t = N::empty_tree(); if (g.coin()) t = N::build(a); else for (auto& x : a) t = N::push_back(t, x); ver.emplace_back(t, a); }
    int q = g.size(1, 40); bool edited = false;
    for (int it = 0; it < q; ++it) {
        int vi = g.raw(ver.size()); T t = ver[vi].first; Vec a = ver[vi].second; int n = a.size();
        bool put = true;
        switch (g.raw(18)) {
            case 0: case 1: { int i = g.raw(n + 1), w = g.raw(3); X v = nv(); g.note("v", vi, "insert", i); if (w == 0) t = N::push_front(t, v), i = 0; else if (w == 1) t = N::push_back(t, v), i = n; else t = N::insert(t, i, v); a.insert(a.begin() + i, v); edited = true; } break;
            case 2: case 3: if (n) { int i = g.raw(n), w = g.raw(3); X v; g.note("v", vi, "erase", i, w); if (w == 0) std::tie(t, v) = N::pop_front(t), i = 0; else if (w == 1) std::tie(t, v) = N::pop_back(t), i = n - 1; else std::tie(t, v) = N::erase(t, i); EQ(v, a[i]); a.erase(a.begin() + i); edited = true; } break;
            case 4: if (n) { int i = g.raw(n); X v = nv(); g.note("v", vi, "set", i); t = N::set(t, i, v); a[i] = v; edited = true; } break;
            case 5: if (n) { int i = g.raw(n); A f = gen_aff(g); g.note("v", vi, "update_value", i); t = N::update_value(t, i, [&](X x) { return O::ap(f, x); }); a[i] = O::ap(f, a[i]); edited = true; } break;
            case 6: if (n) { int i = g.raw(n); X v; g.note("v", vi, "get", i); std::tie(t, v) = N::get(t, i); EQ(v, a[i]); g.nontrivial(edited); } break;
            case 7: { int i = g.raw(n + 1); g.note("v", vi, "split+merge", i); auto [l, r] = N::split(t, i); EQ(dump(l), Vec(a.begin(), a.begin() + i)); EQ(dump(r), Vec(a.begin() + i, a.end())); EQ(N::size(l), i); EQ(N::empty(r), i == n); if (g.coin()) t = N::merge(l, r); else { t = N::merge(r, l); std::rotate(a.begin(), a.begin() + i, a.end()); } edited = true; } break;
            case 8: { auto [l, r] = g.seg(n); g.note("v", vi, "split_range", l, r); auto [x, y, z] = N::split_range(t, l, r); EQ(dump(y), Vec(a.begin() + l, a.begin() + r)); t = N::merge(N::merge(x, z), y); std::rotate(a.begin() + l, a.begin() + r, a.end()); edited = true; } break;
            case 9: if constexpr (F & PERS) { int vj = g.raw(ver.size()); if (n + ver[vj].second.size() < 200) { g.note("v", vi, "merge v", vj); t = N::merge(t, ver[vj].first); a.insert(a.end(), ver[vj].second.begin(), ver[vj].second.end()); edited = true; } }
                else { int vj = g.raw(ver.size()); if (vj != vi) { g.note("merge", vi, vj); t = N::merge(t, ver[vj].first); a.insert(a.end(), ver[vj].second.begin(), ver[vj].second.end()); ver[vi] = { t, a }; ver.erase(ver.begin() + vj); put = false; edited = true; } } break;
            case 10: case 11: if constexpr (F & LAZY) { A f = gen_aff(g); auto [l, r] = g.seg(n); if (g.raw(4) == 0) { g.note("v", vi, "apply_all"); t = N::apply_all(t, f), l = 0, r = n; } else { g.note("v", vi, "apply", l, r); t = N::apply(t, l, r, f); } for (int i = l; i < r; ++i) a[i] = O::ap(f, a[i]); edited = true; } break;
            case 12: case 13: if constexpr (F & REV) { auto [l, r] = g.seg(n); if (g.raw(4) == 0) { g.note("v", vi, "reverse_all"); t = N::reverse_all(t), l = 0, r = n; } else { g.note("v", vi, "reverse", l, r); t = N::reverse(t, l, r); } std::reverse(a.begin() + l, a.begin() + r); edited = true; } break;
            case 14: case 15: if constexpr (F & SEG) { auto [l, r] = g.seg(n); X v; g.note("v", vi, "prod", l, r); std::tie(t, v) = N::prod(t, l, r); EQ(v, fold(a, l, r)); EQ(N::prod_all(t), fold(a, 0, n)); g.nontrivial(edited && l < r); } break;
            case 16: EQ(dump(t), a); { std::ostringstream o; o << "["; for (int i = 0; i < n; ++i) o << (i ? ", " : "") << a[i]; o << "]"; EQ(N::to_string(t), o.str()); } break;
            case 17: if constexpr (F & PERS) {
                int vj = g.raw(ver.size()); T u = ver[vj].first; Vec b = ver[vj].second; int m = b.size();
                auto [l, r] = g.seg(n); auto [x, y] = g.seg(m);
                switch (g.raw(4)) {
                    case 0: { g.note("cut", vi, l, r); t = N::cut(t, l, r); a = Vec(a.begin() + l, a.begin() + r); } break;
                    case 1: if (n + m < 200) { g.note("swap", vi, l, r, vj, x, y); auto [p, q2] = N::swap(t, l, r, u, x, y); Vec na(a.begin(), a.begin() + l), nb(b.begin(), b.begin() + x); na.insert(na.end(), b.begin() + x, b.begin() + y); na.insert(na.end(), a.begin() + r, a.end()); nb.insert(nb.end(), a.begin() + l, a.begin() + r); nb.insert(nb.end(), b.begin() + y, b.end()); EQ(dump(q2), nb); t = p; a = na; } break;
                    case 2: if (n + m < 200) { g.note("replace", vi, l, r, vj); t = N::replace(u, t, l, r); a.erase(a.begin() + l, a.begin() + r); a.insert(a.begin() + l, b.begin(), b.end()); } break;
                    case 3: if (m <= n) { int p = g.raw(n - m + 1); g.note("replace at", vi, p, vj); t = N::replace(u, t, p); std::copy(b.begin(), b.end(), a.begin() + p); } break;
                }
                edited = true;
            } break;
        }
        if (!put) continue;
        EQ(N::size(t), (int)a.size()); EQ(N::empty(t), a.empty());
        if constexpr (F & PERS) { if (ver.size() < 12 && g.coin()) ver.emplace_back(t, a); else ver[g.coin() ? vi : g.raw(ver.size())] = { t, a };
            if (g.raw(30) == 0) { int j = g.raw(ver.size()); auto keep = ver[j]; keep.first = N::rebuild(keep.first); ver = { keep }; EQ(dump(keep.first), keep.second); g.label("rebuild"); } }
        else { ver[vi] = { t, a }; if (t) N::check_rbtree_properties(t); }
    }
    for (auto& [t, a] : ver) { EQ(dump(t), a); if constexpr (F & SEG) EQ(N::prod_all(t), fold(a, 0, a.size())); }
    if constexpr (!(F & PERS)) { for (auto& [t, a] : ver) N::free(t); EQ(N::node_num(), 0); }
    CK(!len_bad);
}
