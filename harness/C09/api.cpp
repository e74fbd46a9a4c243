#include "common.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
using namespace hv;
// the underlying array is exposed: it holds exactly the elements, and construct_heap restores the order after arbitrary edits
template <class H, bool mn> static void raw(Gen& g) {
    auto a = g.vec<i64>(g.size(0, 40), -50, 50); H t(a); const H& c = t; EQ(sorted(c.data()), sorted(a)); auto& d = t.data(); for (auto& x : d) if (g.coin()) x = g.range(-50, 50); auto b = sorted(d); t.construct_heap();
    for (int q = g.size(0, 6); q--;) { i64 v = g.range(-60, 60); t.push(v); b.push_back(v); } b = sorted(b); if (!mn) std::reverse(b.begin(), b.end());
    for (auto x : b) EQ(t.pop(), x); CK(t.empty()); g.nontrivial(b.size() > 3);
}
PBT(binary_heap_raw_data, 6000, "more than three elements", 8, 12) { if (g.coin()) raw<suisen::MinBinaryHeap<i64>, true>(g); else raw<suisen::MaxBinaryHeap<i64>, false>(g); }
PBT(interval_heap_raw_data, 4000, "more than three elements", 8, 12) { auto a = g.vec<i64>(g.size(0, 40), -50, 50); suisen::IntervalHeap<i64> t; for (auto x : a) t.push(x); const auto& c = t; std::vector<i64> d(c.data().begin(), c.data().end()), e(t.data().begin(), t.data().end()); EQ(sorted(d), sorted(a)); CK(d == e); t.check_heap_property(); g.nontrivial(a.size() > 3); }
