#include "rbt_common.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
V v_map2(A f, V x) { return { s_map(f, x.s), x.n }; }
C c_map2(A f, C x) { return { f.a * x.s + f.b * Z(x.n), x.n }; }
template <class Seq, class X, int F> void seq_history(Gen& g) {
    using O = Ops<X>; using Vec = std::vector<X>;
    auto nv = [&] { return O::of(g.raw(3) ? (i64)g.raw(20) : (i64)g.raw(P)); };
    auto fold = [&](const Vec& a, int l, int r) { X s; for (int i = l; i < r; ++i) s = O::op(s, a[i]); return s; };
    Seq t; Vec a; int n = g.size(0, g.chance(1, 20) ? 150 : 30); bool edited = false;
    for (int i = 0; i < n; ++i) { X v = nv(); if (g.coin()) { t.push_back(v); a.push_back(v); } else { t.push_front(v); a.insert(a.begin(), v); } }
    auto dump = [&](Seq& s) { Vec d; for (int i = 0; i < s.size(); ++i) d.push_back(X(s[i])); return d; };
    int q = g.size(1, 40);
    for (int it = 0; it < q; ++it) {
        n = a.size();
        switch (g.raw(14)) {
            case 0: case 1: { int i = g.raw(n + 1); X v = nv(); g.note("insert", i); t.insert(i, v); a.insert(a.begin() + i, v); edited = true; } break;
            case 2: if (n) { int w = g.raw(3), i = w == 0 ? 0 : w == 1 ? n - 1 : g.raw(n); g.note("erase", i); if (w == 0) t.pop_front(); else if (w == 1) t.pop_back(); else t.erase(i); a.erase(a.begin() + i); edited = true; } break;
            case 3: if (n) { int i = g.raw(n); X v = nv(); g.note("set", i); t[i] = v; a[i] = v; edited = true; } break;
            case 4: if (n) { int i = g.raw(n); g.note("get", i); EQ(X(t[i]), a[i]); g.nontrivial(edited); if constexpr (F == 0 || F == REV) { const Seq& c = t; EQ(X(c[i]), a[i]); EQ(X(c.front()), a[0]); EQ(X(c.back()), a[n - 1]); t.front() = a[0]; t.back() = a[n - 1]; } } break;
            case 5: case 6: { int i = g.raw(n + 1), w = g.raw(4); g.note("split", i, w); Seq r = t.split(i); Vec b(a.begin() + i, a.end()); a.resize(i); EQ(t.size(), i); EQ(r.size(), (int)b.size());
                if (g.coin()) { EQ(dump(r), b); EQ(dump(t), a); }
                switch (w) { case 0: t.concat(std::move(r)); a.insert(a.end(), b.begin(), b.end()); break; case 1: t.concat_left(std::move(r)); b.insert(b.end(), a.begin(), a.end()); a = b; break; case 2: t += std::move(r); a.insert(a.end(), b.begin(), b.end()); break;
                    default: r += std::move(t); t = std::move(r); b.insert(b.end(), a.begin(), a.end()); a = b; }
                edited = true; } break;
            case 7: case 8: if constexpr (F & REV) { auto [l, r] = g.seg(n); if (g.raw(4) == 0) { t.reverse_all(); l = 0, r = n; } else t.reverse(l, r); g.note("reverse", l, r); std::reverse(a.begin() + l, a.begin() + r); edited = true; } break;
            case 9: case 10: if constexpr (F & SEG) { auto [l, r] = g.seg(n); g.note("prod", l, r); EQ(g.coin() ? t.prod(l, r) : t(l, r), fold(a, l, r)); EQ(t.prod_all(), fold(a, 0, n)); g.nontrivial(edited && l < r); } break;
            case 11: case 12: if constexpr (F & LAZY) { A f = gen_aff(g); auto [l, r] = g.seg(n); if (g.raw(4) == 0) { t.apply_all(f); l = 0, r = n; } else t.apply(l, r, f); g.note("apply", l, r); for (int i = l; i < r; ++i) a[i] = O::ap(f, a[i]); edited = true; } break;
            case 13: if constexpr (F & SEG) { Seq u; X v = nv(); u.push_back(v); u.swap(t); EQ(dump(t), Vec{ v }); EQ(dump(u), a); t.swap(u); } break;
        }
        EQ(t.size(), (int)a.size());
    }
    EQ(dump(t), a);
    if constexpr (F & SEG) EQ(t.prod_all(), fold(a, 0, a.size()));
}
PBT(plain, 2500, "a read after an edit", 8, 12) { seq_history<suisen::DynamicSequence<V>, V, REV>(g); }
PBT(foldable_ordered, 2500, "a non-empty fold after an edit", 8, 12) { seq_history<suisen::RangeFoldableDynamicSequence<V, v_op, v_e>, V, SEG>(g); }
PBT(foldable_commutative_reverse, 2500, "a non-empty fold after an edit", 8, 12) { seq_history<suisen::RangeFoldableDynamicSequence<C, c_op, c_e>, C, SEG | REV>(g); }
PBT(lazy_ordered, 2500, "a non-empty fold after an edit", 8, 12) { seq_history<suisen::LazyEvalDynamicSequence<V, v_op, v_e, A, v_map2, a_comp, a_id>, V, SEG | LAZY>(g); }
PBT(lazy_commutative_reverse, 2500, "a non-empty fold after an edit", 8, 12) { seq_history<suisen::LazyEvalDynamicSequence<C, c_op, c_e, A, c_map2, a_comp, a_id>, C, SEG | LAZY | REV>(g); }
