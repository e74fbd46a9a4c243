#include "common.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace hv;
// bidirectional words: forward and backward hash, toggle swaps them
struct B { W f, b; int n = 0; bool operator==(const B& o) const { return f == o.f && b == o.b; } };
std::ostream& operator<<(std::ostream& o, const B& x) { return o << x.f; }
B b_op(B x, B y) { return { w_op(x.f, y.f), w_op(y.b, x.b), x.n + y.n }; }
B b_e() { return {}; }
B b_tog(B x) { std::swap(x.f, x.b); return x; }
B b_of(u64 x) { W w = w_of(x); return { w, w, 1 }; }
using T = suisen::SortableSegmentTree<B, b_op, b_e, b_tog, int>;
using KV = std::pair<int, B>;
using M = std::vector<KV>;
static B fold(const M& a, int l, int r) { B s; for (int i = l; i < r; ++i) s = b_op(s, a[i].second); return s; }
static void same(T& t, const M& a) { CK(t.size() == (int)a.size()); auto e = t.dump_entries(); auto k = t.dump_keys(); auto v = t.dump_values(); CK(e.size() == a.size()); CK(k.size() == a.size()); CK(v.size() == a.size()); for (size_t i = 0; i < a.size(); ++i) { EQ(e[i].first, a[i].first); EQ(e[i].second, a[i].second); EQ(k[i], a[i].first); EQ(v[i], a[i].second); } }

PBT(history, 2500, "at least one sort of 2+ elements followed by an edit or query", 8, 12) {
    int n = g.size(0, 40);
    std::set<int> used; u64 vc = 0;
    auto nk = [&] { int k = g.in(-1000, 1000); while (used.count(k)) ++k; used.insert(k); return k; };
    auto nv = [&] { return b_of(g.raw(3) ? ++vc : g.raw(3) + 1000); };
    M a; for (int i = 0; i < n; ++i) { int k = nk(); a.emplace_back(k, nv()); }
    T t = n || g.coin() ? T(a) : T();
    int q = g.size(1, 50); bool srt = false;
    for (int it = 0; it < q; ++it) {
        n = a.size();
        switch (g.raw(14)) {
            case 0: case 1: case 2: { auto [l, r] = g.seg(n); bool d = g.coin(); g.note("sort", l, r, d); if (d) { if (g.coin()) t.sort_dsc(l, r); else t.sort(l, r, T::SortingPolicy::descending); } else { if (g.coin()) t.sort_asc(l, r); else t.sort(l, r); }
                std::sort(a.begin() + l, a.begin() + r, [&](const KV& x, const KV& y) { return d ? x.first > y.first : x.first < y.first; }); if (r - l >= 2) srt = true; } break;
            case 3: if (n) { int i = g.raw(n); B v = nv(); g.note("set_value", i); if (g.coin()) { EQ(t.set_value(i, v), a[i].second); } else t[i] = v; a[i].second = v; g.nontrivial(srt); } break;
            case 4: if (n) { int i = g.raw(n); used.erase(a[i].first); KV kv{ nk(), nv() }; g.note("set_kv", i, kv.first); auto o = t.set_key_value(i, kv.first, kv.second); EQ(o.first, a[i].first); EQ(o.second, a[i].second); a[i] = kv; g.nontrivial(srt); } break;
            case 5: { int w = g.raw(3), i = w == 0 ? 0 : w == 1 ? n : g.raw(n + 1); KV kv{ nk(), nv() }; g.note("insert", i, kv.first); if (w == 0) t.push_front(kv.first, kv.second); else if (w == 1) t.push_back(kv.first, kv.second); else t.insert(i, kv.first, kv.second); a.insert(a.begin() + i, kv); } break;
            case 6: if (n) { int w = g.raw(3), i = w == 0 ? 0 : w == 1 ? n - 1 : g.raw(n); g.note("erase", i); KV o = w == 0 ? t.pop_front() : w == 1 ? t.pop_back() : t.erase(i); EQ(o.first, a[i].first); EQ(o.second, a[i].second); used.erase(a[i].first); a.erase(a.begin() + i); } break;
            case 7: { int i = g.raw(n + 1); g.note("split/concat", i); T r = t.split(i); M b(a.begin() + i, a.end()); a.resize(i); same(t, a); same(r, b); if (g.coin()) { t.concat(std::move(r)); a.insert(a.end(), b.begin(), b.end()); } else { r.concat(std::move(t)); b.insert(b.end(), a.begin(), a.end()); a = b; t = std::move(r); } } break;
            case 8: case 9: { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(t.prod(l, r), fold(a, l, r)); g.nontrivial(srt && l < r); } break;
            case 10: if (n) { int i = g.raw(n); EQ(t.get(i), a[i].second); EQ(B(t[i]), a[i].second); } break;
            case 11: { // order-sensitive monotone predicate: length-limited prefix of the true sequence
                int l = g.raw(n + 1), k = g.raw(n - l + 1); std::vector<W> ok; B s; ok.push_back(s.f); for (int i = l; i < l + k; ++i) s = b_op(s, a[i].second), ok.push_back(s.f);
                g.note("max_right", l, "->", l + k); auto [r, v] = t.max_right(l, [&](B x) { return x.n <= k && x.f == ok[x.n]; }); EQ(r, l + k); EQ(v, s); g.nontrivial(srt); } break;
            case 12: { int r = g.raw(n + 1), k = g.raw(r + 1); std::vector<W> ok; B s; ok.push_back(s.f); for (int i = r - 1; i >= r - k; --i) s = b_op(a[i].second, s), ok.push_back(s.f);
                g.note("min_left", r, "->", r - k); auto [l, v] = t.min_left(r, [&](B x) { return x.n <= k && x.f == ok[x.n]; }); EQ(l, r - k); EQ(v, s); g.nontrivial(srt); } break;
            case 13: { std::vector<int> ks; t.foreach([&](int k, const B&) { ks.push_back(k); }, true); std::vector<int> w; for (auto& p : a) w.push_back(p.first); std::reverse(w.begin(), w.end()); EQ(ks, w); } break;
        }
        EQ(t.size(), (int)a.size());
    }
    same(t, a);
    EQ(t.prod(0, a.size()), fold(a, 0, a.size()));
}
