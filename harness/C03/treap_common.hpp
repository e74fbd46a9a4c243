#pragma once
#include "common.hpp"
using namespace hv;
// element: reversible, affine-actable, order-visible aggregate; x is the scalar of a single element
struct V {
    Z s = 0, sb = 0, c = 0, r = 1; int n = 0;
    friend bool operator==(const V& a, const V& b) { return a.s == b.s && a.sb == b.sb && a.c == b.c && a.r == b.r && a.n == b.n; }
    friend bool operator!=(const V& a, const V& b) { return !(a == b); }
    friend bool operator<(const V& a, const V& b) { return a.s.v < b.s.v; } // single elements: by scalar
    friend std::ostream& operator<<(std::ostream& o, const V& v) { return o << "<" << v.s << "," << v.sb << "#" << v.n << ">"; }
};
inline V v_of(i64 x) { V v; v.s = v.sb = x; v.c = 1; v.r = 912559; v.n = 1; return v; }
inline V v_op(V a, V b) { V t; t.s = a.s + a.r * b.s; t.sb = b.sb + b.r * a.sb; t.c = a.c + a.r * b.c; t.r = a.r * b.r; t.n = a.n + b.n; return t; }
inline V v_e() { return {}; }
inline V v_tog(V a) { std::swap(a.s, a.sb); return a; }
inline bool len_bad = false;
inline V v_map(A f, V x, int len) { if (len != x.n) len_bad = true; x.s = f.a * x.s + f.b * x.c; x.sb = f.a * x.sb + f.b * x.c; return x; }
inline V v_map2(A f, V x) { return v_map(f, x, x.n); }
inline V v_fold(const std::vector<V>& a, int l, int r) { V s; for (int i = l; i < r; ++i) s = v_op(s, a[i]); return s; }
enum { REV = 1, SEG = 2, LAZY = 4, DUAL = 8 };
template <class It> int pos_of(It it) { return it.index(); }
inline bool by_scalar(const V& a, const V& b) { return a.s.v < b.s.v; }

// iterator laws on a container holding a
template <class Tr> void iter_check(Gen& g, Tr& t, const std::vector<V>& a) {
    int n = a.size();
    { std::vector<V> d; for (auto&& x : t) d.push_back(x); EQ(d, a); }
    { const Tr& ct = t; std::vector<V> d(ct.begin(), ct.end()); EQ(d, a); }
    { std::vector<V> d(t.rbegin(), t.rend()); std::reverse(d.begin(), d.end()); EQ(d, a); }
    { const Tr& ct = t; std::vector<V> d(ct.rbegin(), ct.rend()); std::reverse(d.begin(), d.end()); EQ(d, a); }
    { std::vector<V> d; for (auto it = t.cend(); it != t.cbegin();) d.push_back(*--it); std::reverse(d.begin(), d.end()); EQ(d, a); }
    { std::vector<V> d; for (auto it = t.crend(); it != t.crbegin();) { it--; d.push_back(*it); } EQ(d, a); }
    if (n) {
        auto walk = [&](auto b, bool rev) {
            auto at = [&](int i) { return rev ? a[n - 1 - i] : a[i]; };
            int p = g.raw(n); auto it = b + p; EQ(*it, at(p)); CK(p + b == it);
            for (int k = 0; k < 8; ++k) {
                int q = g.raw(n + 1), d = q - p;
                switch (g.raw(5)) {
                    case 0: it += d; break; case 1: it -= -d; break; case 2: it = it + d; break;
                    case 3: if (d == 1) { it++; } else if (d == -1) --it; else it = b + q; break;
                    default: if (q < n) EQ(it[d], at(q)); it = it - (-d);
                }
                CK(it - b == q); CK((it == b) == (q == 0)); CK((it < b + p) == (q < p)); CK((it > b + p) == (q > p)); CK((it <= b + p) == (q <= p)); CK((it >= b + p) == (q >= p)); CK((it != b + p) == (q != p));
                p = q; if (p < n) EQ(*it, at(p)); else if (n) { p = n - 1; --it; EQ(*it, at(p)); }
            }
        };
        walk(t.begin(), false); walk(t.rbegin(), true); walk(t.cbegin(), false); walk(t.crbegin(), true);
    }
}

template <class Tr, int F> void treap_history(Gen& g) {
    len_bad = false;
    int n = g.size(0, g.chance(1, 20) ? 200 : 24);
    std::vector<V> a; auto nv = [&] { return v_of(g.raw(3) ? (i64)g.raw(20) : (i64)g.raw(P)); };
    for (int i = 0; i < n; ++i) a.push_back(nv());
    Tr t;
    switch (g.raw(3)) { case 0: { V f = nv(); t = Tr(size_t(n), f); a.assign(n, f); } break; case 1: t = Tr(a); break; default: for (auto& x : a) t.push_back(x); }
    std::vector<std::pair<Tr, std::vector<V>>> pool; // other live trees sharing the node storage
    int q = g.size(1, 40); bool edited = false;
    auto split_store = [&](Tr r, int i, int how) {
        std::vector<V> b(a.begin() + i, a.end()); a.resize(i);
        EQ(t.size(), i); EQ(r.size(), (int)b.size()); EQ(r.empty(), b.empty());
        if (how == 0) { t.merge(r); a.insert(a.end(), b.begin(), b.end()); }
        else if (how == 1) { r.merge(t); t = r; b.insert(b.end(), a.begin(), a.end()); a = b; }
        else pool.emplace_back(r, b);
    };
    for (int it = 0; it < q; ++it) {
        n = a.size();
        int op = g.raw(24);
        switch (op) {
            case 0: case 1: { int i = g.raw(n + 1); V v = nv(); int w = g.raw(4); g.note("insert", i, w); if (w == 0) { t.push_front(v); i = 0; } else if (w == 1) { t.push_back(v); i = n; }
                else if (w == 2) t.insert(size_t(i), v);
                else { if constexpr (!(F & REV)) { if (g.coin()) t.insert(t.begin() + i, v); else { t.insert(t.rbegin() + (n - i), v); } } else t.insert(size_t(i), v); }
                a.insert(a.begin() + i, v); edited = true; } break;
            case 2: if (n) { int i = g.raw(n), w = g.raw(4); V v; g.note("erase", i, w); if (w == 0) v = t.pop_front(), i = 0; else if (w == 1) v = t.pop_back(), i = n - 1; else if (w == 2) v = t.erase(size_t(i)); else { if constexpr (!(F & REV)) { if (g.coin()) v = t.erase(t.begin() + i); else v = t.erase(t.rbegin() + (n - 1 - i)); } else v = t.erase(size_t(i)); }
                EQ(v, a[i]); a.erase(a.begin() + i); edited = true; } break;
            case 3: case 4: { int i = g.raw(n + 1), how = g.raw(3); g.note("split", i, how); if constexpr (!(F & REV)) { if (g.coin()) { split_store(t.split(t.begin() + i), i, how); break; } } split_store(t.split(size_t(i)), i, how); edited = true; } break;
            case 5: if (pool.size()) { int j = g.raw(pool.size()); g.note("merge pool", j); if (g.coin()) { t.merge(pool[j].first); a.insert(a.end(), pool[j].second.begin(), pool[j].second.end()); pool.erase(pool.begin() + j); } else { std::swap(pool[j].first, t); std::swap(pool[j].second, a); } } break;
            case 6: { int k = g.raw(n + 1); g.note("rotate", k); t.rotate(k); std::rotate(a.begin(), a.begin() + k, a.end()); edited = true; } break;
            case 7: { auto [l, r] = g.seg(n); int m = l + g.raw(r - l + 1); g.note("rotate", l, m, r); t.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); edited = true; } break;
            case 8: case 9: case 10: if constexpr (F & REV) { auto [l, r] = g.seg(n); if (g.raw(5) == 0) { g.note("reverse_all"); t.reverse_all(); std::reverse(a.begin(), a.end()); } else { g.note("reverse", l, r); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } edited = true; } break;
            case 11: if (n) { int i = g.raw(n); V v = nv(); g.note("set", i); if constexpr (F & SEG) { if (g.coin()) { t.set(i, v); a[i] = v; } else { A f = gen_aff(g); t.apply(size_t(i), [&](const V& x) { return v_map2(f, x); }); a[i] = v_map2(f, a[i]); } } else { switch (g.raw(3)) { case 0: t[i] = v; a[i] = v; break; case 1: t.front() = v; a[0] = v; break; default: t.back() = v; a[n - 1] = v; } } edited = true; } break;
            case 12: case 13: case 14: if constexpr (F & (LAZY | DUAL)) { A f = gen_aff(g); auto [l, r] = g.seg(n); if (g.raw(5) == 0) { g.note("apply_all"); t.apply_all(f); l = 0, r = n; } else { g.note("apply", l, r); t.apply(size_t(l), size_t(r), f); } for (int i = l; i < r; ++i) a[i] = v_map2(f, a[i]); edited = true; } break;
            case 15: case 16: if constexpr (F & SEG) { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(t.prod(l, r), v_fold(a, l, r)); EQ(t.prod_all(), v_fold(a, 0, n)); g.nontrivial(edited && l < r); } break;
            case 17: if constexpr (F & SEG) { int l = g.raw(n + 1), k = g.raw(n - l + 1); std::vector<V> ok; V s; ok.push_back(s); for (int i = l; i < l + k; ++i) s = v_op(s, a[i]), ok.push_back(s);
                auto f = [&](V x) { return x.n <= k && x == ok[x.n]; }; g.note("max_right", l, l + k); if constexpr (F & REV) EQ(t.max_right(l, f), l + k); else { auto i = t.max_right(l, f); EQ(pos_of(i), l + k); if (l + k < n) EQ(*i, a[l + k]); } } break;
            case 18: if constexpr (F & SEG) { int r = g.raw(n + 1), k = g.raw(r + 1); std::vector<V> ok; V s; ok.push_back(s); for (int i = r - 1; i >= r - k; --i) s = v_op(a[i], s), ok.push_back(s);
                auto f = [&](V x) { return x.n <= k && x == ok[x.n]; }; g.note("min_left", r, r - k); if constexpr (F & REV) EQ(t.min_left(r, f), r - k); else { auto i = t.min_left(r, f); EQ(pos_of(i), r - k); if (r - k < n) EQ(*i, a[r - k]); } } break;
            case 19: if (n) { int i = g.raw(n); const Tr& c = t; EQ(c[i], a[i]); EQ(c.front(), a[0]); EQ(c.back(), a[n - 1]); EQ(V(t[i]), a[i]); g.nontrivial(edited); } break;
            case 20: { g.note("sorted phase"); // sort contents, then search-based operations
                a = sorted(a); t.free(); t = Tr(a);
                if constexpr (F & REV) { if (g.coin()) { auto b = a; std::reverse(b.begin(), b.end()); t.free(); t = Tr(b); t.reverse_all(); } }
                const int coarse = g.raw(3) ? 1 : 3;
                for (int k = 0; k < 6; ++k) {
                    n = a.size(); V v = g.coin() && n ? a[g.raw(n)] : v_of(g.raw(22));
                    auto cmp = [&](const V& x, const V& y) { return x.s.v / coarse < y.s.v / coarse; }; // coarse: distinct values may be equivalent
                    int lb = std::lower_bound(a.begin(), a.end(), v, cmp) - a.begin(), ub = std::upper_bound(a.begin(), a.end(), v, cmp) - a.begin(); const bool dflt = coarse == 1 && g.coin();
                    auto ge = [&](const V& x) { return !cmp(x, v); };
                    if constexpr (!(F & REV)) {
                        auto i = dflt ? t.lower_bound(v) : t.lower_bound(v, cmp); EQ(pos_of(i), lb); if (lb < n) EQ(*i, a[lb]); CK(i == t.begin() + lb);
                        auto j = coarse == 1 ? t.upper_bound(v, by_scalar) : t.upper_bound(v, cmp); EQ(pos_of(j), ub); if (ub < n) EQ(*j, a[ub]);
                        const Tr& c = t; EQ(pos_of(coarse == 1 ? c.lower_bound(v, by_scalar) : c.lower_bound(v, cmp)), lb); EQ(pos_of(dflt ? c.upper_bound(v) : c.upper_bound(v, cmp)), ub);
                        EQ(pos_of(t.binary_search([&](auto it) { return !cmp(*it, v); })), lb);
                        EQ(pos_of(c.binary_search([&](auto it) { return cmp(v, *it); })), ub);
                        if (g.coin()) { t.insert(i, v); a.insert(a.begin() + lb, v); } else if (ub < n) { EQ(t.erase(j), a[ub]); a.erase(a.begin() + ub); }
                    } else {
                        auto i = dflt ? t.lower_bound(v) : t.lower_bound(v, cmp); EQ(i.first, lb); CK(i.second.has_value() == (lb < n)); if (lb < n) EQ(*i.second, a[lb]);
                        auto j = coarse == 1 ? t.upper_bound(v, by_scalar) : t.upper_bound(v, cmp); EQ(j.first, ub); CK(j.second.has_value() == (ub < n)); if (ub < n) EQ(*j.second, a[ub]);
                        auto b = t.binary_search([&](const V& x, int) { return ge(x); }); EQ(b.first, lb); CK(b.second.has_value() == (lb < n));
                        int w = g.raw(10); g.note("sorted op", w, v);
                        std::optional<std::pair<int, V>> er; int want = -1; bool did = true;
                        switch (w) {
                            case 0: EQ(t.insert_binary_search(v, ge), lb); a.insert(a.begin() + lb, v); did = false; break;
                            case 1: EQ((dflt ? t.insert_lower_bound(v) : t.insert_lower_bound(v, cmp)), lb); a.insert(a.begin() + lb, v); did = false; break;
                            case 2: EQ((dflt ? t.insert_upper_bound(v) : t.insert_upper_bound(v, cmp)), ub); a.insert(a.begin() + ub, v); did = false; break;
                            case 3: er = (dflt ? t.erase_lower_bound(v) : t.erase_lower_bound(v, cmp)); want = lb < n ? lb : -1; break;
                            case 4: er = (dflt ? t.erase_upper_bound(v) : t.erase_upper_bound(v, cmp)); want = ub < n ? ub : -1; break;
                            case 5: er = (dflt ? t.erase_if_exists(v) : t.erase_if_exists(v, cmp)); want = lb < ub ? lb : -1; break;
                            case 6: { bool allow = g.coin(); er = t.erase_binary_search(ge, [&](const V& x) { return allow || x == v; }); want = lb < n && (allow || a[lb] == v) ? lb : -1; } break;
                            case 7: split_store((dflt ? t.split_lower_bound(v) : t.split_lower_bound(v, cmp)), lb, 0); did = false; break;
                            case 8: split_store((dflt ? t.split_upper_bound(v) : t.split_upper_bound(v, cmp)), ub, 0); did = false; break;
                            case 9: split_store(t.split_binary_search(ge), lb, 0); did = false; break;
                        }
                        if (did) { CK(er.has_value() == (want >= 0)); if (want >= 0) { EQ(er->first, want); EQ(er->second, a[want]); a.erase(a.begin() + want); } }
                    }
                    EQ(t.dump(), a);
                    g.nontrivial();
                } } break;
            case 21: EQ(t.dump(), a); break;
            case 22: iter_check(g, t, a); break;
            case 23: if (g.raw(6) == 0) { g.note("clear"); t.clear(); a.clear(); CK(t.empty()); } break;
        }
        EQ(t.size(), (int)a.size()); CK(t.empty() == a.empty());
    }
    EQ(t.dump(), a);
    for (auto& [x, b] : pool) { EQ(x.dump(), b); if constexpr (F & SEG) EQ(x.prod_all(), v_fold(b, 0, b.size())); iter_check(g, x, b); x.free(); }
    iter_check(g, t, a);
    if constexpr (F & SEG) EQ(t.prod_all(), v_fold(a, 0, a.size()));
    CK(!len_bad);
    t.free();
    CK(t.empty());
}
