#include "common.hpp"
#include <map>
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
using namespace hv;
static i64 gkey(Gen& g) { return g.raw(3) ? g.range(-6, 10) : g.edgy(-1000000000000LL, 1000000000000LL); }
template <class M> static std::pair<i64, typename M::mapped_type> kth(const M& m, int k) { auto it = m.begin(); std::advance(it, k); return { it->first, it->second }; }
// operations shared by the three map classes; val(g) makes a value
template <class T, class V, class F> static bool common_op(Gen& g, T& t, std::map<i64, V>& m, F val) {
    switch (g.raw(10)) {
    case 0: case 1: { i64 k = gkey(g); V v = val(); g.note("insert", k, v); t.insert(k, v); m[k] = v; return true; }
    case 2: { i64 k = gkey(g); V v = val(); g.note("insert_if_absent", k, v); t.insert_if_absent(k, v); m.insert({ k, v }); return true; }
    case 3: { i64 k = gkey(g); if (m.size() && g.coin()) k = kth(m, g.raw(m.size())).first; g.note("erase_key", k); bool e = m.erase(k); EQ(t.erase_key(k), e); return true; }
    case 4: if (m.size()) { int i = g.raw(m.size()); g.note("erase_index", i); t.erase_index(i); auto it = m.begin(); std::advance(it, i); m.erase(it); } return true;
    case 5: { i64 k = gkey(g); V v = val(); g.note("get_or_create", k, v); V r = t.get_or_create(k, v); EQ(r, m.insert({ k, v }).first->second); return true; }
    case 6: { i64 k = gkey(g); V v = val(); g.note("get_or_default", k, v); auto it = m.find(k); EQ(t.get_or_default(k, v), it == m.end() ? v : it->second); return true; }
    case 7: if (m.size()) { int i = g.raw(m.size()); g.note("kth", i); auto [k, v] = t.kth_entry(i); auto [ek, ev] = kth(m, i); EQ(k, ek); EQ(v, ev); } return true;
    case 8: { // cut somewhere, edit one part, join again
        bool byk = g.coin(); i64 k = gkey(g); int i = g.raw(m.size() + 1); auto it = byk ? m.lower_bound(k) : [&] { auto it = m.begin(); std::advance(it, i); return it; }();
        g.note("split", byk, byk ? k : i); T r = byk ? t.split_by_key(k) : t.split_by_index(i); std::map<i64, V> mr(it, m.end()); m.erase(it, m.end());
        EQ(t.size(), (int)m.size()); EQ(r.size(), (int)mr.size()); if (m.size() && mr.size()) g.nontrivial();
        if (g.chance(1, 4) && mr.size()) { i64 x = mr.rbegin()->first; CK(r.erase_key(x)); mr.erase(x); }
        if (g.chance(1, 5)) { T e; e.swap(t); e.swap(t); }
        if (g.chance(1, 5)) { T e; e = std::move(r); t.merge(std::move(e)); } else t.merge(std::move(r));
        m.insert(mr.begin(), mr.end()); return true; }
    default: { i64 k = gkey(g); if (m.size() && g.coin()) k = kth(m, g.raw(m.size())).first; g.note("contains", k); EQ(t.contains(k), m.count(k) > 0); EQ(t.size(), (int)m.size()); return true; }
    }
}
template <class T, class V> static void final_check(T& t, const std::map<i64, V>& m) { EQ(t.size(), (int)m.size()); int i = 0; for (auto& [k, v] : m) { auto [a, b] = t.kth_entry(i++); EQ(a, k); EQ(b, v); } }
PBT(splay_map, 8000, "a cut with both parts non-empty occurred", 8, 13) {
    suisen::SplayTreeMap<i64, i64> t; std::map<i64, i64> m;
    for (int q = g.size(1, 60); q--;) {
        if (g.chance(1, 8)) { i64 k = gkey(g), v = g.raw(99); if (g.coin()) { g.note("[]=", k, v); t[k] = v; m[k] = v; } else { g.note("[]", k); i64 x = t[k]; EQ(x, m[k]); } }
        else common_op(g, t, m, [&] { return (i64)g.raw(99); });
    }
    final_check(t, m);
}
PBT(splay_set, 8000, "a cut with both parts non-empty occurred", 8, 12) {
    suisen::SplayTreeSet<i64> t; std::set<i64> m;
    auto nth = [&](int i) { auto it = m.begin(); std::advance(it, i); return *it; };
    for (int q = g.size(1, 60); q--;) {
        i64 k = gkey(g);
        switch (g.raw(6)) {
        case 0: case 1: g.note("insert", k); t.insert(k); m.insert(k); break;
        case 2: { if (m.size() && g.coin()) k = nth(g.raw(m.size())); g.note("erase", k); bool e = m.erase(k); EQ(t.erase(k), e); } break;
        case 3: g.note("contains", k); EQ(t.contains(k), m.count(k) > 0); break;
        case 4: if (m.size()) { int i = g.raw(m.size()); g.note("kth", i); EQ(g.coin() ? t[i] : t.kth_element(i), nth(i)); } break;
        default: { bool byk = g.coin(); int i = g.raw(m.size() + 1); g.note("split", byk, byk ? k : i); auto it = m.begin(); if (byk) it = m.lower_bound(k); else std::advance(it, i);
            suisen::SplayTreeSet<i64> r = byk ? t.split_by_key(k) : t.split_by_index(i); std::set<i64> mr(it, m.end()); m.erase(it, m.end()); EQ(t.size(), (int)m.size()); EQ(r.size(), (int)mr.size()); if (m.size() && mr.size()) g.nontrivial();
            t.merge(std::move(r)); m.insert(mr.begin(), mr.end()); } break;
        }
        EQ(t.size(), (int)m.size());
    }
    int i = 0; for (i64 x : m) EQ(t[i++], x);
}
PBT(range_foldable_map, 8000, "a fold over at least two entries", 8, 12) {
    using T = suisen::RangeFoldableMap<i64, W, w_op, w_e>; T t; std::map<i64, W> m; auto val = [&] { return w_of(g.raw(99)); };
    for (int q = g.size(1, 60); q--;) {
        switch (g.raw(5)) {
        case 0: { i64 l = gkey(g), r = gkey(g); if (l > r) std::swap(l, r); g.note("prod_key", l, r); W e; int c = 0; for (auto it = m.lower_bound(l); it != m.lower_bound(r); ++it) e = w_op(e, it->second), ++c; if (c > 1) g.nontrivial(); EQ(g.coin() ? t.prod_by_key(l, r) : t(l, r), e); } break;
        case 1: { auto [l, r] = g.seg(m.size()); g.note("prod_idx", l, r); W e; for (int i = l; i < r; ++i) e = w_op(e, kth(m, i).second); EQ(t.prod_by_index(l, r), e); W all; for (auto& [k, v] : m) all = w_op(all, v); EQ(t.prod_all(), all); } break;
        case 2: { i64 k = gkey(g); if (g.coin()) { W v = val(); g.note("[]=", k, v); t[k] = v; m[k] = v; } else { W x = t[k]; EQ(x, m[k]); } } break;
        default: common_op(g, t, m, val);
        }
    }
    W all; for (auto& [k, v] : m) all = w_op(all, v); EQ(t.prod_all(), all); final_check(t, m);
}
PBT(lazy_eval_map, 10000, "an operator was applied to at least two entries", 8, 12) {
    using T = suisen::LazyEvalMap<i64, S, s_op, s_e, A, s_map, a_comp, a_id>; T t; std::map<i64, S> m; auto val = [&] { return s_of(g.raw(99)); };
    for (int q = g.size(1, 60); q--;) {
        switch (g.raw(8)) {
        case 0: { i64 l = gkey(g), r = gkey(g); if (l > r) std::swap(l, r); g.note("prod_key", l, r); S e; for (auto it = m.lower_bound(l); it != m.lower_bound(r); ++it) e = s_op(e, it->second); EQ(g.coin() ? t.prod_by_key(l, r) : t(l, r), e); } break;
        case 1: { auto [l, r] = g.seg(m.size()); g.note("prod_idx", l, r); S e; for (int i = l; i < r; ++i) e = s_op(e, kth(m, i).second); EQ(t.prod_by_index(l, r), e); S all; for (auto& [k, v] : m) all = s_op(all, v); EQ(t.prod_all(), all); } break;
        case 2: { i64 k = gkey(g); S v = val(); g.note("[]=", k, v); t[k] = v; m[k] = v; } break;
        case 3: { i64 l = gkey(g), r = gkey(g); if (l > r) std::swap(l, r); A f = gen_aff(g); g.note("apply_key", l, r, f); int c = 0; for (auto it = m.lower_bound(l); it != m.lower_bound(r); ++it) it->second = s_map(f, it->second), ++c; if (c > 1) g.nontrivial(); t.apply_by_key(l, r, f); } break;
        case 4: { auto [l, r] = g.seg(m.size()); A f = gen_aff(g); g.note("apply_idx", l, r, f); int i = 0; for (auto& [k, v] : m) { if (l <= i && i < r) v = s_map(f, v); ++i; } t.apply_by_index(l, r, f); } break;
        case 5: { A f = gen_aff(g); g.note("apply_all", f); for (auto& [k, v] : m) v = s_map(f, v); t.apply_all(f); } break;
        default: common_op(g, t, m, val);
        }
    }
    S all; for (auto& [k, v] : m) all = s_op(all, v); EQ(t.prod_all(), all); final_check(t, m);
}
