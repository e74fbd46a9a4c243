#include "common.hpp"
#include <queue>
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
using namespace hv;
static std::string gs(Gen& g) { return std::string(g.raw(3) * 12, 'a') + std::to_string(g.raw(12)); } // also beyond the small-string size
template <class H, bool mn, class V, class F> static void heap(Gen& g, F val, H t, std::multiset<V> m) {
    for (int q = g.size(1, 60); q--;) {
        switch (g.raw(5)) {
        case 0: case 1: { V v = val(); g.note("push", v); if (g.coin()) t.push(v); else t.emplace(v); m.insert(v); } break;
        case 2: case 3: if (m.size()) { auto it = mn ? m.begin() : std::prev(m.end()); g.note("pop"); V e = *it; EQ(t.top(), e); EQ(t.pop(), e); m.erase(it); if (m.size() > 2) g.nontrivial(); } break;
        default: if (g.chance(1, 12)) { g.note("clear"); t.clear(); m.clear(); } else if (g.chance(1, 6)) { t.reserve(50); t.shrink_to_fit(); } EQ(t.size(), (int)m.size()); EQ(t.empty(), m.empty()); if (m.size()) EQ(t.top(), mn ? *m.begin() : *m.rbegin()); { auto d = t.data(); EQ(sorted(std::vector<V>(d.begin(), d.end())), std::vector<V>(m.begin(), m.end())); } t.check_heap_property(); break;
        }
    }
    while (m.size()) { auto it = mn ? m.begin() : std::prev(m.end()); EQ(t.pop(), *it); m.erase(it); }
    CK(t.empty());
}
template <class H, bool mn> static void heap_i(Gen& g) { auto a = g.vec<i64>(g.size(0, 20), -9, 9); g.note("init", a); H t = g.coin() ? H(a.begin(), a.end()) : H(a); if (a.empty() && g.coin()) t = H(); heap<H, mn, i64>(g, [&] { return g.range(-9, 9); }, t, { a.begin(), a.end() }); }
PBT(min_binary_heap, 20000, "a pop leaving at least three elements", 8, 12) { heap_i<suisen::MinBinaryHeap<i64>, true>(g); }
PBT(max_binary_heap, 20000, "a pop leaving at least three elements", 8, 14) { heap_i<suisen::MaxBinaryHeap<i64>, false>(g); }
PBT(min_binary_heap_greater, 10000, "a pop leaving at least three elements", 8, 12) { heap_i<suisen::MinBinaryHeap<i64, std::greater<i64>>, false>(g); }
PBT(priority_queues, 10000, "a pop leaving at least three elements", 8, 12) { if (g.coin()) heap_i<suisen::MinPriorityQueue<i64>, true>(g); else heap_i<suisen::MaxPriorityQueue<i64>, false>(g); }
PBT(binary_heap_strings, 10000, "a pop leaving at least three elements", 8, 16) { using H = suisen::MinBinaryHeap<std::string>; heap<H, true, std::string>(g, [&] { return gs(g); }, H(), {}); }
template <class H, class V, class F> static void depq(Gen& g, F val, H t, std::multiset<V> m) {
    for (int q = g.size(1, 70); q--;) {
        switch (g.raw(6)) {
        case 0: case 1: case 2: { V v = val(); g.note("push", v); if (g.coin()) t.push(v); else t.emplace(v); m.insert(v); } break;
        case 3: if (m.size()) { g.note("pop_min"); V e = *m.begin(); EQ(t.pop_min(), e); m.erase(m.begin()); if (m.size() > 2) g.nontrivial(); } break;
        case 4: if (m.size()) { g.note("pop_max"); V e = *m.rbegin(); EQ(t.pop_max(), e); m.erase(std::prev(m.end())); } break;
        default: EQ(t.size(), (int)m.size()); EQ(t.empty(), m.empty()); if (m.size()) { if (g.coin()) EQ(t.max(), *m.rbegin()); if (g.coin()) EQ(t.min(), *m.begin()); if (g.coin()) EQ(t.max(), *m.rbegin()); } break;
        }
    }
    while (m.size()) { if (g.coin()) { EQ(t.min(), *m.begin()); EQ(t.pop_min(), *m.begin()); m.erase(m.begin()); } else { EQ(t.max(), *m.rbegin()); EQ(t.pop_max(), *m.rbegin()); m.erase(std::prev(m.end())); } }
    CK(t.empty());
}
PBT(interval_heap, 25000, "a pop_min leaving at least three elements", 8, 17) { depq<suisen::IntervalHeap<i64>, i64>(g, [&] { return g.range(-9, 9); }, {}, {}); }
PBT(interval_heap_strings, 10000, "a pop_min leaving at least three elements", 8, 13) { depq<suisen::IntervalHeap<std::string>, std::string>(g, [&] { return gs(g); }, {}, {}); }
PBT(interval_heap_structure, 15000, "at least three elements", 8, 12) {
    suisen::IntervalHeap<int> t; std::vector<int> all; for (int q = g.size(1, 60); q--;) { if (g.raw(3)) { int v = g.range(-9, 9); t.push(v); all.push_back(v); } else if (all.size()) { std::sort(all.begin(), all.end()); if (g.coin()) { t.pop_min(); all.erase(all.begin()); } else { t.pop_max(); all.pop_back(); } } t.check_heap_property(); if (all.size() > 2) g.nontrivial(); }
    const auto& c = t; EQ(sorted(c.data()), sorted(all));
}
using D = suisen::DoubleEndedPriorityQueue<i64>;
PBT(double_ended_priority_queue, 25000, "a pop_min leaving at least three elements", 8, 16) {
    auto a = g.vec<i64>(g.size(0, 12), -9, 9); g.note("init", a); D t = a.empty() ? D() : g.coin() ? D(a) : D(a.begin(), a.end()); std::multiset<i64> m(a.begin(), a.end());
    depq<D, i64>(g, [&] { return g.range(-9, 9); }, t, m);
}
struct ByKey { const std::vector<int>* key = nullptr; bool operator()(int x, int y) const { return (*key)[x] < (*key)[y]; } };
PBT(double_ended_priority_queue_copies, 10000, "the original is destroyed before the copy is used", 8, 12) {
    std::vector<int> key = g.perm(12); std::multiset<int> ranks; std::vector<int> inv(12); for (int i = 0; i < 12; ++i) inv[key[i]] = i; using T = suisen::DoubleEndedPriorityQueue<int, ByKey>;
    ByKey cmp{ &key }; std::vector<int> init = g.chance(1, 2) ? g.vec<int>(g.size(0, 9), 0, 11) : std::vector<int>{}; for (int x : init) ranks.insert(key[x]); auto t = init.empty() && g.coin() ? std::make_unique<T>(cmp) : g.coin() ? std::make_unique<T>(init.begin(), init.end(), cmp) : std::make_unique<T>(init, cmp); for (int q = g.size(0, 12); q--;) { int x = g.raw(12); t->push(x); ranks.insert(key[x]); if (g.chance(1, 4) && ranks.size()) { EQ(t->min(), inv[*ranks.begin()]); } }
    if (g.coin()) { auto u = std::make_unique<T>(*t); t = std::move(u); g.nontrivial(); }
    std::vector<int> ds = t->dump_sorted(), e; for (int r : ranks) e.push_back(inv[r]); EQ(ds, e);
    while (ranks.size()) { if (g.chance(1, 3)) { int x = g.raw(12); t->push(x); ranks.insert(key[x]); if (g.chance(1, 2)) { continue; } } if (g.coin()) { EQ(t->pop_min(), inv[*ranks.begin()]); ranks.erase(ranks.begin()); } else { EQ(t->top(), inv[*ranks.rbegin()]); EQ(t->pop(), inv[*ranks.rbegin()]); ranks.erase(std::prev(ranks.end())); } }
}
// As used by the repository: MaximumPrioritySum keeps the k smallest in a max-heap, MinimumPrioritySum the k largest in a min-heap.
template <class T, bool mx> static void psum(Gen& g) {
    int k = g.raw(8); T t(k); std::multiset<i64> m; g.note("k=", k);
    for (int q = g.size(1, 60); q--;) {
        switch (g.raw(7)) {
        case 0: case 1: case 2: { i64 v = g.range(-6, 6); g.note("insert", v); t.insert(v); m.insert(v); } break;
        case 3: case 4: if (m.size()) { i64 v = *std::next(m.begin(), g.raw(m.size())); g.note("erase", v); t.erase(v); m.erase(m.find(v)); } break;
        case 5: { switch (g.raw(3)) { case 0: t.incr_k(); ++k; break; case 1: if (k) t.decr_k(), --k; break; default: k = g.raw(9); t.set_k(k); } g.note("k", k); } break;
        default: break;
        }
        i64 e = 0; int c = 0; if (mx) { for (auto it = m.rbegin(); it != m.rend() && c < k; ++it, ++c) e += *it; } else for (auto it = m.begin(); it != m.end() && c < k; ++it, ++c) e += *it;
        EQ(t.get_sum(), e); EQ(t.size(), (int)m.size()); EQ(t.get_k(), k); if ((int)m.size() > k && k) g.nontrivial();
    }
}
PBT(maximum_priority_sum, 20000, "more elements than k > 0", 8, 13) { psum<suisen::MaximumPrioritySum<i64>, false>(g); }
PBT(minimum_priority_sum, 20000, "more elements than k > 0", 8, 12) { psum<suisen::MinimumPrioritySum<i64>, true>(g); }
