// FLAGS: -mbmi -mbmi2
#include "common.hpp"
#include <map>
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
using namespace hv;
template <class U, int B> static U gval(Gen& g) { U all = B == sizeof(U) * 8 ? ~U(0) : (U(1) << (B % (sizeof(U) * 8))) - 1; return (g.raw(3) == 0 ? U(g.u64any()) : g.coin() ? U(g.raw(6)) : U(U(g.raw(4)) << (B / 2)) | U(g.raw(3))) & all; }
template <class T, int B> static void trie(Gen& g) {
    using U = std::make_unsigned_t<T>; suisen::BinaryTrie<T, B> t; std::multiset<U> m; auto gv = [&] { return m.size() && g.coin() ? *std::next(m.begin(), g.raw(m.size())) : gval<U, B>(g); };
    auto xs = [&](U x) { std::vector<U> v; for (U y : m) v.push_back(x ^ y); return sorted(v); };
    for (int q = g.size(1, 40); q--;) {
        U v = gv();
        switch (g.raw(5)) {
        case 0: case 1: { int c = g.raw(4) ? 1 : g.raw(4); g.note("insert", (u64)v, c); int r = t.insert(v, c); for (int i = 0; i < c; ++i) m.insert(v); if (c) EQ(r, (int)m.count(v)); } break;
        case 2: { int c = g.raw(3) ? 1 : g.raw(4); bool all = g.chance(1, 4); g.note(all ? "erase_all" : "erase", (u64)v, c); int e = all ? m.count(v) : std::min<int>(c, m.count(v)); EQ(all ? t.erase_all(v) : t.erase(v, c), e); for (int i = 0; i < e; ++i) m.erase(m.find(v)); } break;
        case 3: { g.note("count", (u64)v); EQ(t.count(v), (int)m.count(v)); EQ(t.contains(v), m.count(v) > 0); EQ(t.size(), (int)m.size()); EQ(t.empty(), m.empty()); int l = g.raw(B); int e = 0; for (U y : m) e += ((y ^ v) >> l) == 0; EQ(t.prefix_count(v, l), e); } break;
        default: {
            U x = g.coin() ? 0 : gval<U, B>(g); auto s = xs(x); if (s.size() && g.coin()) v = s[g.raw(s.size())]; U def = std::array<U, 3>{U(~U(0)), U(12345), U(0)}[g.raw(3)]; g.note("xor", (u64)x, (u64)v); if (x && s.size() > 1) g.nontrivial();
            int n = s.size(), lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin();
            if (n) { int k = g.raw(n); EQ(t.xor_kth_min(x, k), s[k]); EQ(t.xor_kth_max(x, k), s[n - 1 - k]); EQ(t.xor_min(x), s[0]); EQ(t.xor_max(x), s[n - 1]); if (!x) { EQ(t.kth_min(k), s[k]); EQ(t.min(), s[0]); EQ(t.max(), s[n - 1]); } }
            EQ(t.xor_count_lt(x, v), lt); EQ(t.xor_count_leq(x, v), le); EQ(t.xor_count_gt(x, v), n - le); EQ(t.xor_count_geq(x, v), n - lt);
            U lo = lt ? s[lt - 1] : def, fl = le ? s[le - 1] : def, hi = le < n ? s[le] : def, ce = lt < n ? s[lt] : def;
            EQ(t.xor_lower(x, v, def), lo); EQ(t.xor_floor(x, v, def), fl); EQ(t.xor_higher(x, v, def), hi); EQ(t.xor_ceil(x, v, def), ce);
            if (!x) { EQ(t.count_lt(v), lt); EQ(t.count_leq(v), le); EQ(t.count_gt(v), n - le); EQ(t.count_geq(v), n - lt); EQ(t.lower(v, def), lo); EQ(t.floor(v, def), fl); EQ(t.higher(v, def), hi); EQ(t.ceil(v, def), ce); }
        } break;
        }
    }
}
PBT(binary_trie_u64, 40000, "an xor query with a non-zero mask on at least two elements", 8, 14) { trie<unsigned long, 64>(g); }
PBT(binary_trie_int_30, 40000, "an xor query with a non-zero mask on at least two elements", 8, 17) { trie<int, 30>(g); }
PBT(binary_trie_u8, 40000, "an xor query with a non-zero mask on at least two elements", 8, 12) { trie<unsigned char, 8>(g); }
template <class T, uint32_t B> static void patricia(Gen& g) {
    using U = std::make_unsigned_t<T>; suisen::BinaryTriePatricia<T, B> t; std::multiset<U> m; auto gv = [&] { return m.size() && g.coin() ? *std::next(m.begin(), g.raw(m.size())) : gval<U, B>(g); };
    auto opt = [&](bool ok, U v) { return ok ? std::optional<T>(T(v)) : std::nullopt; };
    for (int q = g.size(1, 40); q--;) {
        U v = gv();
        switch (g.raw(6)) {
        case 0: case 1: { int c = g.raw(4) ? 1 : 1 + g.raw(3); if (c == 1) t.insert(v); else t.insert(v, c); g.note("insert", (u64)v, c); for (int i = 0; i < c; ++i) m.insert(v); } break;
        case 2: { int c = g.raw(3) ? 1 : g.raw(5); g.note("erase", (u64)v, c); int e = std::min<int>(c, m.count(v)); EQ((int)t.erase(v, c), e); for (int i = 0; i < e; ++i) m.erase(m.find(v)); } break;
        case 3: { g.note("insert_if_absent", (u64)v); bool e = !m.count(v); EQ(t.insert_if_absent(v), e); if (e) m.insert(v); } break;
        case 4: { if (g.chance(1, 12)) { g.note("clear"); t.clear(); m.clear(); } g.note("count", (u64)v); EQ((int)t.count(v), (int)m.count(v)); EQ(t.contains(v), m.count(v) > 0); EQ(t.size(), (int)m.size()); EQ(t.empty(), m.empty()); } break;
        default: {
            U x = g.coin() ? 0 : gval<U, B>(g); std::vector<U> s; for (U y : m) s.push_back(x ^ y); std::sort(s.begin(), s.end()); if (s.size() && g.coin()) v = s[g.raw(s.size())]; bool big = B < sizeof(U) * 8 && g.chance(1, 8); if (big) v = ~U(0) - g.raw(2); g.note("xor", (u64)x, (u64)v); if (x && s.size() > 1) g.nontrivial();
            int n = s.size(), lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin();
            if (n) { int k = g.raw(n); EQ(t.xor_kth_min(x, k), T(s[k])); EQ(t.xor_kth_max(x, k), T(s[n - 1 - k])); EQ(t.xor_min(x), T(s[0])); EQ(t.xor_max(x), T(s[n - 1])); if (!x) { EQ(t.kth_min(k), T(s[k])); EQ(t.kth_max(k), T(s[n - 1 - k])); } }
            EQ((int)t.xor_count_lt(x, v), lt); EQ((int)t.xor_count_leq(x, v), le); EQ((int)t.xor_count_gt(x, v), n - le); EQ((int)t.xor_count_geq(x, v), n - lt);
            auto mlt = opt(lt > 0, lt ? s[lt - 1] : 0), mle = opt(le > 0, le ? s[le - 1] : 0), mgt = opt(le < n, le < n ? s[le] : 0), mge = opt(lt < n, lt < n ? s[lt] : 0);
            CK(t.safe_xor_max_lt(x, v) == mlt); CK(t.safe_xor_max_leq(x, v) == mle); CK(t.safe_xor_min_gt(x, v) == mgt); CK(t.safe_xor_min_geq(x, v) == mge);
            if (mlt) EQ(t.xor_max_lt(x, v), *mlt); if (mle) EQ(t.xor_max_leq(x, v), *mle); if (mgt) EQ(t.xor_min_gt(x, v), *mgt); if (mge) EQ(t.xor_min_geq(x, v), *mge);
            if (!x) {
                EQ((int)t.count_lt(v), lt); EQ((int)t.count_leq(v), le); EQ((int)t.count_gt(v), n - le); EQ((int)t.count_geq(v), n - lt); CK(t.safe_max_lt(v) == mlt); CK(t.safe_max_leq(v) == mle); CK(t.safe_min_gt(v) == mgt); CK(t.safe_min_geq(v) == mge);
                if (mlt) EQ(t.max_lt(v), *mlt); if (mle) EQ(t.max_leq(v), *mle); if (mgt) EQ(t.min_gt(v), *mgt); if (mge) EQ(t.min_geq(v), *mge);
            }
        } break;
        }
    }
}
PBT(patricia_u32_30, 40000, "an xor query with a non-zero mask on at least two elements", 8, 21) { patricia<uint32_t, 30>(g); }
PBT(patricia_int_24, 40000, "an xor query with a non-zero mask on at least two elements", 8, 17) { patricia<int, 24>(g); }
PBT(patricia_u32_32, 40000, "an xor query with a non-zero mask on at least two elements", 8, 12) { patricia<uint32_t, 32>(g); }
PBT(patricia_u64_64, 40000, "an xor query with a non-zero mask on at least two elements", 8, 19) { patricia<uint64_t, 64>(g); }
PBT(patricia_u64_41, 40000, "an xor query with a non-zero mask on at least two elements", 8, 15) { patricia<uint64_t, 41>(g); }
PBT(patricia_u32_7, 40000, "an xor query with a non-zero mask on at least two elements", 8, 15) { patricia<uint32_t, 7>(g); }
PBT(fenwick_tree_set, 40000, "universe spans several words and the set is non-empty", 8, 14) {
    using T = suisen::fenwick_tree_set; int n = g.coin() ? g.raw(70) : g.pick<int>({ 0, 1, 63, 64, 65, 127, 128, 129, 200, 320, 700 }); std::set<int> m; T t; g.note("n=", n);
    switch (g.raw(4)) {
    case 0: t = T(n); break;
    case 1: t = T(n, true); for (int i = 0; i < n; ++i) m.insert(i); break;
    case 2: { std::vector<int> v; if (n) v = g.vec<int>(g.raw(12), 0, n - 1); t = T(n, v); m.insert(v.begin(), v.end()); g.note("vals", v); } break;
    default: { auto v = g.vec<int>(n, 0, 1); int one = g.raw(2); t = one == 1 && g.coin() ? T(v) : T(v, one); for (int i = 0; i < n; ++i) if (v[i] == one) m.insert(i); } break;
    }
    auto gv = [&] { return g.chance(1, 8) ? (int)g.pick<int>({ -1, n, n + 1, -100, INT_MAX, INT_MIN, 1000000000, -1000000000 }) : m.size() && g.chance(1, 3) ? *std::next(m.begin(), g.raw(m.size())) + (int)g.range(-1, 1) : (int)g.raw(n + 1); };
    for (int q = g.size(1, 40); q--;) {
        int v = gv();
        switch (g.raw(5)) {
        case 0: case 1: if (0 <= v && v < n) { g.note("insert", v); bool e = m.insert(v).second; EQ(t.insert(v), e); } break;
        case 2: if (0 <= v && v < n) { g.note("erase", v); bool e = m.erase(v); EQ(t.erase(v), e); } else if (m.size()) { int i = g.raw(m.size()); g.note("erase_it", i); auto it = t.erase(t.begin() + i); m.erase(std::next(m.begin(), i)); CK(it - t.begin() == i); } break;
        default: {
            g.note("query", v); if (n > 64 && m.size()) g.nontrivial(); EQ(t.size(), (int)m.size()); EQ(t.contains(v), m.count(v) > 0);
            auto lb = m.lower_bound(v), ub = m.upper_bound(v); int lt = std::distance(m.begin(), lb), le = std::distance(m.begin(), ub), s = m.size();
            EQ(t.count_lt(v), lt); EQ(t.count_leq(v), le); EQ(t.count_gt(v), s - le); EQ(t.count_geq(v), s - lt);
            EQ(t.max_leq(v), ub == m.begin() ? -1 : *std::prev(ub)); EQ(t.max_lt(v), lb == m.begin() ? -1 : *std::prev(lb)); EQ(t.min_geq(v), lb == m.end() ? -1 : *lb); EQ(t.min_gt(v), ub == m.end() ? -1 : *ub);
            EQ(t.lower_bound(v).index(), lt); EQ(t.upper_bound(v) - t.begin(), le); CK(t.find(v) == (m.count(v) ? t.begin() + lt : t.end())); EQ(t.lower_bound(v).has_value(), lt < s);
            int k = (int)g.raw(s + 3) - 1; EQ(t.kth_element(k), 0 <= k && k < s ? *std::next(m.begin(), k) : -1); EQ(t[k], t.kth_element(k)); EQ(t.begin()[k], t.kth_element(k));
        } break;
        }
    }
    std::vector<int> a(t.begin(), t.end()), b(m.begin(), m.end()); EQ(a, b);
}

// multiplicities as large as the size type: the model keeps (value, count) pairs
template <class Tr, class S, int B, bool PAT> static void trie_mult(Gen& g, S cap) {
    using U = uint64_t; Tr t; std::map<U, S> m; S tot = 0; const U all = ~U(0) >> (64 - B);
    auto gv = [&] { return m.size() && g.coin() ? std::next(m.begin(), g.raw(m.size()))->first : g.coin() ? U(g.raw(5)) & all : U(g.u64any()) & all; };
    for (int q = g.size(1, 25); q--;) {
        U v = gv();
        switch (g.raw(4)) {
            case 0: case 1: { S room = cap - tot; if (!room) break; S c = g.coin() ? S(1 + g.raw(std::min<S>(room, 5))) : g.chance(1, 8) ? room : S(1 + g.raw(room)); g.note("insert ", v, " x", c, ";"); t.insert(v, c); m[v] += c; tot += c; break; }
            case 2: { S c = g.coin() ? S(1 + g.raw(5)) : S(1 + g.raw(cap)); S h = m.count(v) ? m[v] : 0, x = std::min(h, c); g.note("erase ", v, " x", c, ";"); auto r = t.erase(v, c); if constexpr (PAT) { CKM((S)r == x, "erase returns the number of erased elements"); } else { CKM((S)r == x || (S)r == h - x, "erase"); } if (h) { m[v] -= x; tot -= x; if (!m[v]) m.erase(v); } break; }
            default: if constexpr (!PAT) { g.note("erase_all ", v, ";"); t.erase_all(v); if (m.count(v)) tot -= m[v], m.erase(v); } else { g.note("insert_if_absent ", v, ";"); if (tot == cap) break; bool r = t.insert_if_absent(v); EQ(r, !m.count(v)); if (r) m[v] = 1, ++tot; }
        }
        CKM((S)t.size() == tot, "size"); U x = g.coin() ? 0 : U(g.u64any()) & all, w = gv(); S lt = 0, le = 0; std::vector<std::pair<U, S>> xs; for (auto [k, c] : m) { xs.push_back({ x ^ k, c }); if ((x ^ k) < w) lt += c; if ((x ^ k) <= w) le += c; } std::sort(xs.begin(), xs.end());
        CKM((S)t.count(v) == (m.count(v) ? m[v] : 0), "count"); CKM((S)t.xor_count_lt(x, w) == lt, "xor_count_lt"); CKM((S)t.xor_count_leq(x, w) == le, "xor_count_leq"); CKM((S)t.xor_count_geq(x, w) == tot - lt, "xor_count_geq"); CKM((S)t.xor_count_gt(x, w) == tot - le, "xor_count_gt");
        if (tot) for (int r = 3; r--;) { S k = g.chance(1, 4) ? tot - 1 : S(g.raw(tot)); S s = 0; U e = 0; for (auto [y, c] : xs) { if (k < s + c) { e = y; break; } s += c; } CKM((U)t.xor_kth_min(x, k) == e, "xor_kth_min"); CKM((U)t.xor_kth_max(x, tot - 1 - k) == e, "xor_kth_max"); }
        if (tot > 100000000 && m.size() >= 2) g.nontrivial();
    }
}
PBT(trie_multiplicity, 4000, "two distinct values and more than 10^8 elements in all") { trie_mult<suisen::BinaryTrie<unsigned long, 40>, long long, 40, false>(g, INT_MAX); }
PBT(patricia_multiplicity, 4000, "two distinct values and more than 10^8 elements in all") { if (g.coin()) trie_mult<suisen::BinaryTriePatricia<uint64_t, 40>, long long, 40, true>(g, INT_MAX); else trie_mult<suisen::BinaryTriePatricia<uint64_t, 64, int64_t>, long long, 64, true>(g, LLONG_MAX / 2); }
