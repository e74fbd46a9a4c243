#include "common.hpp"
#include "library/datastructure/ZDD.hpp"
using namespace hv;
using Z0 = suisen::ZDD; using Fam = std::set<int>; // sets as bit masks over the case's own levels
PBT(zdd, 6000, "a binary operation on two families of at least three sets each") {
    int n = g.size(1, 6); std::vector<unsigned> lv(n); for (auto& x : lv) x = Z0::new_level(); for (int i = 1; i < n; ++i) CK(lv[i] > lv[i - 1]);
    auto mk1 = [&](int m) { Z0 f = Z0::terminal1(); auto p = g.perm(n); for (int i : p) if (m >> i & 1) f = Z0::change(f, lv[i]); return f; };
    std::function<void(Z0, int, Fam&)> en = [&](Z0 f, int m, Fam& o) { if (f.is_terminal0()) return; if (f.is_terminal1()) { CK(o.insert(m).second); return; } int i = std::find(lv.begin(), lv.end(), f.top()) - lv.begin(); CKM(i < n, "foreign level"); CK(!f[1].is_terminal0()); CK(f[0].top() < f.top() && f[1].top() < f.top()); en(f[0], m, o); en(f[1], m | 1 << i, o); };
    std::vector<std::pair<Z0, Fam>> v; v.emplace_back(Z0::terminal0(), Fam{}); v.emplace_back(Z0::terminal1(), Fam{ 0 });
    for (int k = 2; k--;) { Fam a; Z0 f; for (int j = g.size(0, 12); j--;) { int m = g.raw(1 << n); a.insert(m); f = f + mk1(m); } g.note("family", a); v.emplace_back(f, a); }
    for (int q = g.size(1, 15); q--;) {
        auto [f, a] = v[g.raw(v.size())]; auto [h, b] = v[g.raw(v.size())]; int i = g.raw(n); Z0 r; Fam e; int op = g.raw(10); g.note("op ", op, " ", a, " ", b, " lev ", i); if (op < 6 && a.size() > 2 && b.size() > 2) g.nontrivial();
        switch (op) {
        case 0: r = f & h; for (int x : a) if (b.count(x)) e.insert(x); break;
        case 1: r = f + h; e = a; e.insert(b.begin(), b.end()); break;
        case 2: r = f - h; for (int x : a) if (!b.count(x)) e.insert(x); break;
        case 3: r = f ^ h; for (int x : a) if (!b.count(x)) e.insert(x); for (int x : b) if (!a.count(x)) e.insert(x); break;
        case 4: r = Z0::restrict(f, h); for (int x : a) for (int y : b) if ((x & y) == y) e.insert(x); break;
        case 5: r = Z0::permit(f, h); for (int x : a) for (int y : b) if ((x & y) == x) e.insert(x); break;
        case 6: r = Z0::change(f, lv[i]); for (int x : a) e.insert(x ^ 1 << i); break;
        case 7: r = Z0::onset0(f, lv[i]); for (int x : a) if (x >> i & 1) e.insert(x ^ 1 << i); break;
        case 8: r = Z0::onset1(f, lv[i]); for (int x : a) if (x >> i & 1) e.insert(x); break;
        default: r = Z0::offset(f, lv[i]); for (int x : a) if (!(x >> i & 1)) e.insert(x);
        }
        Fam o; en(r, 0, o); EQ(o, e); v.emplace_back(r, e); CK(r.is_terminal0() == e.empty()); CK(r.is_terminal1() == (e == Fam{ 0 }));
        EQ(Z0::card<i64>(r), (i64)e.size()); int ml = -1; for (int x : e) ml = std::max(ml, __builtin_popcount(x)); if (ml >= 0) EQ(Z0::len(r), ml); else CK(Z0::len(r) < 0);
        auto it = Z0::max_len_item(r); CK(it.has_value() == (ml >= 0)); if (it) { EQ((int)it->size(), ml); int m = 0; for (int x : *it) { int k = std::find(lv.begin(), lv.end(), (unsigned)x) - lv.begin(); CK(k < n); m |= 1 << k; } CK(e.count(m)); EQ(__builtin_popcount(m), ml); }
        std::set<Fam> nodes; std::function<void(const Fam&)> cn = [&](const Fam& x) { int top = -1; for (int m : x) if (m) top = std::max(top, 31 - __builtin_clz(m)); if (top < 0 || !nodes.insert(x).second) return; Fam lo, hi; for (int m : x) (m >> top & 1 ? hi : lo).insert(m & ~(1 << top)); cn(lo); cn(hi); }; cn(e); EQ(Z0::size(r), (int)nodes.size());
    }
}
