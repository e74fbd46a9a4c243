#include "large.hpp"
#include <deque>
#include <queue>
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
using namespace hv;
static i64 val(Bulk& b, int how, int i, int n) { return how == 0 ? i : how == 1 ? n - i : how == 2 ? 5 : b.range(-1000000000000LL, 1000000000000LL); }
PBT(heaps_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g), how = g.raw(4); Bulk b(g); g.nontrivial(); std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = val(b, how, i, n);
    suisen::MinBinaryHeap<i64> t(a); suisen::MaxPriorityQueue<i64> u; for (i64 x : a) u.push(x); auto s = sorted(a); int extra = n / 4; for (int i = 0; i < extra; ++i) { i64 v = val(b, how, b.in(0, n), n); t.push(v); u.push(v); s.push_back(v); } std::sort(s.begin(), s.end());
    for (size_t i = 0; i < s.size(); ++i) { EQ(t.pop(), s[i]); EQ(u.pop(), s[s.size() - 1 - i]); } CK(t.empty()); CK(u.empty());
}
PBT(double_ended_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g), how = g.raw(4); Bulk b(g); g.nontrivial(); suisen::IntervalHeap<i64> t; std::vector<i64> a; for (int i = 0; i < n; ++i) a.push_back(val(b, how, i, n)), t.push(a[i]); suisen::DoubleEndedPriorityQueue<i64> d(a); std::multiset<i64> m(a.begin(), a.end());
    for (int k = 0; m.size(); ++k) { switch (b.raw(5)) { case 0: { i64 v = val(b, how, b.in(0, n), n); t.push(v); d.push(v); m.insert(v); } break; case 1: case 2: EQ(t.pop_min(), *m.begin()); EQ(d.pop_min(), *m.begin()); m.erase(m.begin()); break; default: EQ(t.pop_max(), *m.rbegin()); EQ(d.pop_max(), *m.rbegin()); m.erase(std::prev(m.end())); } }
    CK(t.empty()); CK(d.empty());
}
PBT(priority_sum_large, 2, "every case: tens of thousands of elements, k moving widely") {
    int n = 30000, k = 1000; Bulk b(g); g.nontrivial(); suisen::MaximumPrioritySum<i64> t(k); std::vector<i64> a;
    for (int q = 0; q < n; ++q) { if (b.raw(4) || a.empty()) { i64 v = b.range(-1000000000, 1000000000); t.insert(v); a.push_back(v); } else { int i = b.raw(a.size()); t.erase(a[i]); a[i] = a.back(); a.pop_back(); } if (b.raw(4) == 0) { switch (b.raw(3)) { case 0: t.incr_k(); ++k; break; case 1: if (k) t.decr_k(), --k; break; default: if (b.raw(200) == 0) { k = b.in(0, 20000); t.set_k(k); } } }
        if (q % 200 == 0) { auto s = sorted(a); EQ(t.get_sum(), std::accumulate(s.begin(), s.begin() + std::min<size_t>(k, s.size()), i64(0))); EQ(t.size(), (int)a.size()); } }
}
struct Sm { i64 s, c, mx; }; static Sm sm_e() { return { 0, 0, -2000000000 }; } static Sm sm_app(Sm a, int v) { return { a.s + v, a.c + 1, std::max<i64>(a.mx, v) }; } static Sm sm_merge(Sm a, Sm b) { return { a.s + b.s, a.c + b.c, std::max(a.mx, b.mx) }; }
PBT(queues_large, 4, "every case: more than 2^16 elements pushed, alternating ends") {
    int n = big_n(g), how = g.raw(4); Bulk b(g); g.nontrivial(); suisen::QueueAggregation<int, Sm, sm_e, sm_app, Sm, sm_merge> t; suisen::DequeAggregation<W, w_op, w_e> d; std::deque<int> q; std::deque<W> e; i64 s = 0;
    auto chk = [&] { Sm r = t.prod(); EQ(r.s, s); EQ(r.c, (i64)q.size()); EQ(t.size(), (int)q.size()); EQ(d.size(), (int)e.size()); W w; for (auto& x : e) w = w_op(w, x); EQ(d.prod(), w); if (q.size()) { EQ(t.front(), q.front()); EQ(t.back(), q.back()); EQ(r.mx, (i64)*std::max_element(q.begin(), q.end())); } if (e.size()) { EQ(d.front(), e.front()); EQ(d.back(), e.back()); int i = b.raw(e.size()); EQ(d[i], e[i]); } };
    for (int i = 0; i < n; ++i) { int v = b.in(-1000000000, 1000000000); t.push_back(v); q.push_back(v); s += v; W w = w_of(b.raw(0)); if (how == 1 || (how == 3 && b.coin())) d.push_front(w), e.push_front(w); else d.push_back(w), e.push_back(w); if (how == 2 && i % 3 == 2) { t.pop_front(); s -= q.front(); q.pop_front(); d.pop_front(); e.pop_front(); } }
    chk(); int st = std::max<int>(1, q.size() / 12), se = std::max<int>(1, e.size() / 12);
    for (int k = 0; q.size() > 3; ++k) { t.pop_front(); s -= q.front(); q.pop_front(); if (k % st == 0) chk(); }
    // the ends alternate: an amortised structure must not rebuild each time
    for (int k = 0; e.size() > 3; ++k) { bool f = how == 0 ? true : how == 1 ? false : how == 2 ? k % 2 : b.coin(); if (f) d.pop_front(), e.pop_front(); else d.pop_back(), e.pop_back(); W p = d.prod(); (void)p; if (k % se == 0) chk(); }
    chk();
    std::vector<i64> a(n); for (auto& x : a) x = b.range(-1000000000, 1000000000);
}
