#include "large.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace hv;
struct B { W f, b; bool operator==(const B& o) const { return f == o.f && b == o.b; } };
std::ostream& operator<<(std::ostream& o, const B& x) { return o << x.f; }
B b_op(B x, B y) { return { w_op(x.f, y.f), w_op(y.b, x.b) }; }
B b_e() { return {}; }
B b_tog(B x) { std::swap(x.f, x.b); return x; }
B b_of(u64 x) { W w = w_of(x); return { w, w }; }
PBT(sortable_large, 3, "every case: tens of thousands of keys, sorts of long ranges") {
    using T = suisen::SortableSegmentTree<B, b_op, b_e, b_tog, int>; int n = big_n(g, 40000); Bulk b(g); g.nontrivial(); int lim = 1 << 30; std::vector<std::pair<int, B>> a(n); std::set<int> used;
    auto nk = [&] { int k; do k = b.in(-lim, lim); while (!used.insert(k).second); return k; };
    for (auto& [k, v] : a) k = nk(), v = b_of(b.raw(1000)); T t(a); auto fold = [&](int l, int r) { B s; for (int i = l; i < r; ++i) s = b_op(s, a[i].second); return s; };
    for (int q = 0; q < 250; ++q) {
        n = a.size(); auto [l, r] = b.seg(n);
        switch (b.raw(6)) {
            case 0: t.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first < y.first; }); break;
            case 1: t.sort_dsc(l, r); std::sort(a.begin() + l, a.begin() + r, [](auto& x, auto& y) { return x.first > y.first; }); break;
            case 2: EQ(t.prod(l, r), fold(l, r)); break;
            case 3: { int i = b.in(0, n - 1); B v = b_of(b.raw(1000)); t.set_value(i, v); a[i].second = v; } break;
            case 4: { int i = b.in(0, n); std::pair<int, B> kv{ nk(), b_of(b.raw(1000)) }; t.insert(i, kv.first, kv.second); a.insert(a.begin() + i, kv); } break;
            default: { int i = b.in(0, n - 1); auto o = t.erase(i); EQ(o.first, a[i].first); a.erase(a.begin() + i); }
        }
    }
    auto e = t.dump_entries(); EQ(e.size(), a.size()); for (size_t i = 0; i < a.size(); ++i) { EQ(e[i].first, a[i].first); EQ(e[i].second, a[i].second); }
    t.sort_asc(0, a.size()); auto ks = t.dump_keys(); CK(std::is_sorted(ks.begin(), ks.end())); EQ(ks.size(), a.size());
}
