// FLAGS: -mbmi -mbmi2
#include "large.hpp"
#include <map>
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
using namespace hv;
static std::vector<i64> keys(Gen& g, Bulk& b, int n) { int how = g.raw(3); std::vector<i64> k(n); for (int i = 0; i < n; ++i) k[i] = how == 0 ? i : how == 1 ? n - i : b.range(-1000000000000000LL, 1000000000000000LL); return k; }
template <class T, class V, class F> static void map_big(Gen& g, F of, V (*op)(V, V), V e) {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); T t; std::map<i64, V> m; auto ks = keys(g, b, n); for (i64 k : ks) { V v = of(b.raw(P)); t.insert(k, v); m[k] = v; }
    auto anyk = [&] { return b.raw(5) ? ks[b.raw(n)] : b.range(-1000000000000000LL, 1000000000000000LL); };
    for (int q = 0; q < 3600; ++q) switch (b.raw(6)) {
        case 5: { i64 k = anyk(); V v = of(b.raw(P)); if (b.coin()) t.insert_if_absent(k, v); else { V w = t.get_or_create(k, v); auto it = m.find(k); EQ(w, it == m.end() ? v : it->second); } m.emplace(k, v); } break;
        case 0: { i64 k = anyk(); EQ(t.erase_key(k), m.erase(k) > 0); } break;
        case 1: { i64 k = anyk(); V v = of(b.raw(P)); t.insert(k, v); m[k] = v; } break;
        case 2: { i64 k = anyk(); EQ(t.contains(k), m.count(k) > 0); } break;
        case 3: { i64 k = anyk(); V d = of(7); auto it = m.find(k); EQ(t.get_or_default(k, d), it == m.end() ? d : it->second); } break;
        default: { i64 k = anyk(); T r = t.split_by_key(k); int s = t.size() + r.size(); EQ(s, (int)m.size()); t.merge(std::move(r)); }
    }
    std::vector<std::pair<i64, V>> s(m.begin(), m.end()); n = s.size(); EQ(t.size(), n);
    for (int q = 0; q < 1500; ++q) { int i = b.in(0, n - 1); auto [k, v] = t.kth_entry(i); EQ(k, s[i].first); EQ(v, s[i].second); }
    if constexpr (!std::is_same_v<V, i64>) {
        for (int q = 0; q < 15; ++q) { auto [l, r] = b.seg(n); V x = e; for (int i = l; i < r; ++i) x = op(x, s[i].second); EQ(t.prod_by_index(l, r), x); i64 lo = l < n ? s[l].first : s[n - 1].first + 1, hi = r < n ? s[r].first : s[n - 1].first + 1; EQ(t.prod_by_key(lo, hi), x); }
        V x = e; for (auto& [k, v] : s) x = op(x, v); EQ(t.prod_all(), x);
    }
    for (int i = 0; i < n; ++i) { auto [k, v] = t.kth_entry(i); EQ(k, s[i].first); EQ(v, s[i].second); }
}
static i64 dummy(i64 a, i64) { return a; }
PBT(splay_map_large, 3, "every case: more than 50000 keys") { map_big<suisen::SplayTreeMap<i64, i64>, i64>(g, [](u64 x) { return i64(x); }, dummy, 0); }
PBT(range_foldable_map_large, 3, "every case: more than 50000 keys") { map_big<suisen::RangeFoldableMap<i64, W, w_op, w_e>, W>(g, [](u64 x) { return w_of(x); }, w_op, w_e()); }
PBT(lazy_eval_map_large, 3, "every case: more than 50000 keys") { map_big<suisen::LazyEvalMap<i64, S, s_op, s_e, A, s_map, a_comp, a_id>, S>(g, [](u64 x) { return s_of(i64(x)); }, s_op, s_e()); }
PBT(splay_set_large, 3, "every case: more than 50000 keys") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); suisen::SplayTreeSet<i64> t; std::set<i64> m; auto ks = keys(g, b, n); for (i64 k : ks) t.insert(k), m.insert(k);
    for (int q = 0; q < 5000; ++q) { i64 k = b.coin() ? ks[b.raw(n)] : b.range(-1000, n + 1000); switch (b.raw(3)) { case 0: t.insert(k), m.insert(k); break; case 1: EQ(t.erase(k), m.erase(k) > 0); break; default: EQ(t.contains(k), m.count(k) > 0); } }
    EQ(t.size(), (int)m.size()); int i = 0; for (i64 k : m) EQ(t[i++], k);
}
template <class T> static void trie_big(Gen& g, bool dense) {
    int n = big_n(g, 80000); Bulk b(g); g.nontrivial(); T t; std::vector<u64> v(n); for (auto& x : v) { x = dense ? b.raw(1 << 15) : b.raw(0); t.insert(x); }
    for (int k = 0; k < n / 10; ++k) { int i = b.raw(v.size()); t.erase(v[i]); v[i] = v.back(); v.pop_back(); }
    auto s = sorted(v); n = s.size(); EQ((int)t.size(), n);
    for (int q = 0; q < 3000; ++q) { u64 x = b.coin() ? s[b.raw(n)] : dense ? b.raw(1 << 15) : b.raw(0); int lt = std::lower_bound(s.begin(), s.end(), x) - s.begin(), le = std::upper_bound(s.begin(), s.end(), x) - s.begin(); EQ((int)t.count(x), le - lt); EQ((int)t.count_lt(x), lt); EQ((int)t.count_leq(x), le); int k = b.in(0, n - 1); EQ(u64(t.kth_min(k)), s[k]); }
    for (int q = 0; q < 20; ++q) { u64 x = dense ? b.raw(1 << 15) : b.raw(0), mn = ~u64(0), mx = 0; for (u64 y : s) mn = std::min(mn, x ^ y), mx = std::max(mx, x ^ y); EQ(u64(t.xor_min(x)), mn); EQ(u64(t.xor_max(x)), mx); }
}
PBT(binary_trie_large, 2, "every case: tens of thousands of values") { trie_big<suisen::BinaryTrie<unsigned long, 64>>(g, g.coin()); }
PBT(patricia_large, 2, "every case: tens of thousands of values") {
    bool dense = g.coin(); int n = big_n(g, 80000); Bulk b(g); g.nontrivial(); suisen::BinaryTriePatricia<unsigned long, 64> t; std::vector<u64> v(n); for (auto& x : v) { x = dense ? b.raw(1 << 15) : b.raw(0) >> b.raw(40); t.insert(x); }
    for (int k = 0; k < n / 10; ++k) { int i = b.raw(v.size()); EQ((int)t.erase(v[i]), 1); v[i] = v.back(); v.pop_back(); }
    auto s = sorted(v); n = s.size(); EQ((int)t.size(), n);
    for (int q = 0; q < 3000; ++q) { u64 x = b.coin() ? s[b.raw(n)] : b.raw(0); int lt = std::lower_bound(s.begin(), s.end(), x) - s.begin(); EQ((int)t.xor_count_lt(0, x), lt); int k = b.in(0, n - 1); EQ(u64(t.xor_kth_min(0, k)), s[k]); EQ(u64(t.xor_kth_max(0, k)), s[n - 1 - k]); }
    for (int q = 0; q < 20; ++q) { u64 x = b.raw(0), mn = ~u64(0), mx = 0; for (u64 y : s) mn = std::min(mn, x ^ y), mx = std::max(mx, x ^ y); EQ(u64(t.xor_min(x)), mn); EQ(u64(t.xor_max(x)), mx); }
}
PBT(fenwick_set_large, 4, "every case: universe of more than 2^16 values") {
    int n = big_n(g, 1000000); Bulk b(g); g.nontrivial(); int how = g.raw(3); suisen::fenwick_tree_set t(n, how == 1); std::vector<char> in(n, how == 1); int den = how == 2 ? 20000 : 3;
    if (how != 1) for (int k = 0; k < n / den; ++k) { int v = b.in(0, n - 1); EQ(t.insert(v), !in[v]); in[v] = 1; }
    else for (int k = 0; k < n - 30; ++k) { int v = b.in(0, n - 1); if (k < n / 2) { EQ(t.erase(v), bool(in[v])); in[v] = 0; } }
    if (g.coin()) { int l = b.in(0, n / 2), r = std::min(n, l + n / 3); for (int v = l; v < r; ++v) { EQ(t.erase(v), bool(in[v])); in[v] = 0; } } // a long empty stretch
    std::vector<int> s; for (int v = 0; v < n; ++v) if (in[v]) s.push_back(v); int m = s.size(); EQ(t.size(), m);
    for (int q = 0; q < 20000; ++q) {
        int v = b.raw(4) ? b.in(0, n - 1) : s[b.raw(m)]; int lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin();
        EQ(t.contains(v), bool(in[v])); EQ(t.count_lt(v), lt); EQ(t.count_leq(v), le); EQ(t.count_geq(v), m - lt); EQ(t.max_leq(v), le ? s[le - 1] : -1); EQ(t.min_geq(v), lt < m ? s[lt] : -1); EQ(t.max_lt(v), lt ? s[lt - 1] : -1); EQ(t.min_gt(v), le < m ? s[le] : -1); int k = b.in(0, m - 1); EQ(t.kth_element(k), s[k]);
    }
}
