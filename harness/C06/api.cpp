#include "common.hpp"
#include "library/datastructure/splay_tree_set.hpp"
using namespace hv;
PBT(splay_set_move, 4000, "both sets had elements", 8, 12) {
    using S = suisen::SplayTreeSet<int>; S a, b; std::set<int> x, y; for (int q = g.size(0, 12); q--;) { int k = g.in(0, 30); if (g.coin()) a.insert(k), x.insert(k); else b.insert(k), y.insert(k); }
    g.nontrivial(x.size() && y.size()); a = std::move(b); x = y; if (g.coin()) { S& r = a; a = std::move(r); }
    for (int q = g.size(0, 12); q--;) { int k = g.in(0, 30); if (g.coin()) a.insert(k), x.insert(k); else EQ(a.erase(k), x.erase(k) > 0); }
    EQ(a.size(), (int)x.size()); int i = 0; for (int k : x) { EQ(a[i++], k); CK(a.contains(k)); }
}
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
static i64 m_add(i64 a, i64 b) { return a + b; } static i64 m_zero() { return 0; } static i64 m_map(i64 f, i64 x) { return f + x; }
template <class T> static void map_moves(Gen& g) {
    T a, b; std::map<int, i64> x, y; for (int q = g.size(0, 12); q--;) { int k = g.in(0, 30); i64 v = g.in(0, 99); if (g.coin()) a.insert(k, v), x[k] = v; else b.insert(k, v), y[k] = v; }
    g.nontrivial(x.size() && y.size()); if (g.coin()) { a = std::move(b); x = y; } if (g.coin()) { T& r = a; a = std::move(r); }
    for (int q = g.size(0, 12); q--;) { int k = g.in(0, 30); i64 v = g.in(0, 99); if (g.coin()) a.insert(k, v), x[k] = v; else EQ(a.erase_key(k), x.erase(k) > 0); }
    EQ(a.size(), (int)x.size()); for (auto& [k, v] : x) { CK(a.contains(k)); EQ((i64)a.get_or_default(k, -1), v); }
}
PBT(splay_map_moves, 3000, "both maps had elements", 8, 12) { switch (g.raw(3)) { case 0: map_moves<suisen::SplayTreeMap<int, i64>>(g); break; case 1: map_moves<suisen::RangeFoldableMap<int, i64, m_add, m_zero>>(g); break; default: map_moves<suisen::LazyEvalMap<int, i64, m_add, m_zero, i64, m_map, m_add, m_zero>>(g); } }
#include "library/datastructure/binary_trie.hpp"
#include <sstream>
// the printed trie names every stored value with its multiplicity
template <class T> static void trie_print(Gen& g) {
    using U = std::make_unsigned_t<T>;
    suisen::BinaryTrie<T> t; std::map<U, int> m; int ops = g.size(0, 8);
    for (int i = 0; i < ops; ++i) {
        U v = g.coin() || m.empty() ? U(g.u64any()) : std::next(m.begin(), g.raw(m.size()))->first; int c = g.in(1, 3);
        if (g.chance(1, 4)) { int r = t.erase(v, c), have = m.count(v) ? m[v] : 0; EQ(r, std::min(c, have)); if (have) { m[v] -= r; if (!m[v]) m.erase(v); } }
        else t.insert(v, c), m[v] += c;
    }
    std::ostringstream o; o << t; std::string s = o.str(); EQ(s, t.to_string());
    std::map<U, int> seen;
    for (size_t p = s.find('('); p != std::string::npos; p = s.find('(', p + 1)) {
        size_t q = p - 1; while (q > 0 && std::isdigit((unsigned char)s[q - 1])) --q;
        int c = std::atoi(s.c_str() + q); unsigned long long v = std::strtoull(s.c_str() + p + 1, nullptr, 10);
        if (c) { CKM(v <= std::numeric_limits<U>::max() && !seen.count(U(v)), "the printed trie has a value that cannot be stored or one printed twice: " + s); seen[U(v)] = c; }
    }
    if (m.size() > 1) g.nontrivial();
    EQ(seen == m, true);
}
PBT(binary_trie_print, 1500, "two or more distinct values stored", 8, 12) { switch (g.raw(4)) { case 0: trie_print<int>(g); break; case 1: trie_print<long long>(g); break; case 2: trie_print<unsigned>(g); break; default: trie_print<unsigned long long>(g); } }
