#include "common.hpp"
#include <deque>
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
using namespace hv;
template <class T, class V> static void iters(Gen& g, const T& t, const std::deque<V>& d) {
    int n = d.size(); EQ(std::vector<V>(t.begin(), t.end()), std::vector<V>(d.begin(), d.end())); CK(t.cend() - t.cbegin() == n);
    if (!n) return; int i = g.raw(n), j = g.raw(n + 1); auto a = t.begin() + i, b = j + t.begin(); EQ(*a, d[i]); EQ(t.begin()[i], d[i]); EQ(*(t.end() - (n - i)), d[i]); CK(b - a == j - i); CK((a < b) == (i < j)); CK((a <= b) == (i <= j)); CK((a > b) == (i > j)); CK((a >= b) == (i >= j)); CK((a == b) == (i == j)); CK((a != b) == (i != j));
    auto c = a; c += j - i; CK(c == b); c -= j - i; CK(c == a); auto e = c++; CK(e == a); CK(c - a == 1); auto f = c--; CK(f - a == 1); CK(c == a); ++c; --c; CK(c == a);
    std::vector<V> r; for (auto it = t.end(); it != t.begin();) r.push_back(*--it); EQ(r, std::vector<V>(d.rbegin(), d.rend()));
    EQ(t[i], d[i]); EQ(t.front(), d.front()); EQ(t.back(), d.back());
}
struct Sm { i64 s, c, mx; }; static Sm sm_e() { return { 0, 0, -1000 }; } static Sm sm_app(Sm a, int v) { return { a.s + v, a.c + 1, std::max<i64>(a.mx, v) }; } struct Rr { i64 s, c, mx; bool operator==(const Rr& o) const { return s == o.s && c == o.c && mx == o.mx; } }; static std::ostream& operator<<(std::ostream& o, const Rr& r) { return o << r.s << ' ' << r.c << ' ' << r.mx; } static Rr sm_merge(Sm a, Sm b) { return { a.s + b.s, a.c + b.c, std::max(a.mx, b.mx) }; }
PBT(queue_aggregation, 20000, "the queue is popped while holding at least two elements", 8, 15) {
    using T = suisen::QueueAggregation<int, Sm, sm_e, sm_app, Rr, sm_merge>; std::deque<int> d; T t; if (g.coin()) { auto a = g.vec<int>(g.size(0, 10), -9, 9); d.assign(a.begin(), a.end()); t = g.coin() ? T(a) : T(a.begin(), a.end()); }
    for (int q = g.size(1, 50); q--;) {
        if (g.raw(5) < 3) { int v = g.range(-99, 99); g.note("push", v); t.push_back(v); d.push_back(v); } else if (d.size()) { if (d.size() > 1) g.nontrivial(); g.note("pop"); t.pop_front(); d.pop_front(); }
        if (g.chance(1, 40)) { t.clear(); d.clear(); t.shrink_to_fit(); g.note("clear"); }
        Rr e{ 0, 0, -1000 }; for (int v : d) e.s += v, e.c++, e.mx = std::max<i64>(e.mx, v); EQ(t.prod(), e); EQ(t.size(), (int)d.size()); if (d.size()) { EQ(t.front(), d.front()); EQ(t.back(), d.back()); } if (g.chance(1, 5)) iters(g, t, d);
    }
}
PBT(deque_aggregation, 25000, "popped at both ends while holding at least two elements", 8, 18) {
    using T = suisen::DequeAggregation<W, w_op, w_e>; std::deque<W> d; T t; bool pf = false, pb = false; if (g.coin()) { std::vector<W> a(g.size(0, 10)); for (auto& x : a) x = w_of(g.raw(99)); d.assign(a.begin(), a.end()); t = g.coin() ? T(a) : T(a.begin(), a.end()); }
    for (int q = g.size(1, 60); q--;) {
        W v = w_of(g.raw(99));
        switch (g.raw(4)) { case 0: g.note("push_back"); t.push_back(v); d.push_back(v); break; case 1: g.note("push_front"); t.push_front(v); d.push_front(v); break; case 2: if (d.size()) { g.note("pop_front"); pf |= d.size() > 1; t.pop_front(); d.pop_front(); } break; default: if (d.size()) { g.note("pop_back"); pb |= d.size() > 1; t.pop_back(); d.pop_back(); } }
        if (g.chance(1, 40)) { t.clear(); d.clear(); t.shrink_to_fit(); g.note("clear"); }
        if (pf && pb) g.nontrivial(); EQ(t.prod(), w_fold(std::vector<W>(d.begin(), d.end()), 0, d.size())); EQ(t.size(), (int)d.size()); if (d.size()) { EQ(t.front(), d.front()); EQ(t.back(), d.back()); } if (g.chance(1, 5)) iters(g, t, d);
    }
}
template <class Cmp, bool mn, bool left> static void slide(Gen& g) {
    int n = g.size(0, 30); auto a = g.vec<int>(n, 0, g.pick<int>({ 2, 9, 1000 })); suisen::sliding_window_minimum<int, Cmp> t(n, [&](int i) { return a[i]; }); int l = 0, r = 0; g.note("a", a);
    for (int q = g.size(1, 40); q--;) {
        switch (g.raw(4)) {
        case 0: if (r < n) { t.proc_right(); ++r; } break;
        case 1: if (l < r) { t.proc_left(); ++l; } break;
        case 2: { int k = g.raw(n + 1); t.proc_right(k); r = std::max(r, k); } if (g.coin()) { int k = l + g.raw(r - l + 1); t.proc_left(k); l = std::max(l, k); } break;
        default: { int nr = std::min<int>(n, r + g.raw(4)), nl = std::min<int>(nr, l + g.raw(4)); t.proc(nl, nr); r = std::max(r, nr); l = std::max(l, nl); }
        }
        EQ(t.get_left(), l); EQ(t.get_right(), r); EQ(t.get_window_size(), r - l);
        if (l < r) { int b = l; for (int i = l; i < r; ++i) if (mn ? (a[i] < a[b] || (!left && a[i] == a[b])) : (a[i] > a[b] || (!left && a[i] == a[b]))) b = i; EQ(t.arg_query(), b); EQ(t.query(), a[b]); if (r - l > 2) g.nontrivial(); }
    }
}
namespace pm = suisen::prioritizing_mode;
PBT(sliding_left_min, 15000, "a window of at least three elements", 8, 12) { slide<pm::left_most_min<int>, true, true>(g); }
PBT(sliding_right_min, 10000, "a window of at least three elements", 8, 12) { slide<pm::right_most_min<int>, true, false>(g); }
PBT(sliding_left_max, 10000, "a window of at least three elements", 8, 12) { slide<pm::left_most_max<int>, false, true>(g); }
PBT(sliding_right_max, 10000, "a window of at least three elements", 8, 12) { slide<pm::right_most_max<int>, false, false>(g); }
