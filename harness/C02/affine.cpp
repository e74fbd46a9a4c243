#include "common.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
using namespace hv;
using F = suisen::Affine<i64>; using C = suisen::AffineClamp<i64>;
PBT(affine, 20000, "two maps with slopes other than 0 and 1") {
    F f(g.range(-50, 50), g.range(-1000, 1000)), h(g.range(-50, 50), g.range(-1000, 1000)), k(g.range(-50, 50), g.range(-1000, 1000)); i64 x = g.range(-1000, 1000), c = g.range(-9, 9);
    g.nontrivial(std::abs(f.a) > 1 && std::abs(h.a) > 1);
    EQ(f(x), f.a * x + f.b); EQ(f.compose(h)(x), f(h(x))); EQ(F::compose(f, h)(x), f(h(x))); EQ(F::id()(x), x); CK(f.compose(F::id()) == f); CK(F::id().compose(f) == f);
    CK(f.compose(h).compose(k) == f.compose(h.compose(k)));
    EQ((f + h)(x), f(x) + h(x)); EQ((f - h)(x), f(x) - h(x)); EQ((-f)(x), -f(x)); EQ((+f)(x), f(x)); EQ((f + c)(x), f(x) + c); EQ((f - c)(x), f(x) - c);
    F p = f; EQ((p++)(x), f(x)); EQ(p(x), f(x) + 1); p = f; EQ((--p)(x), f(x) - 1); p = f; EQ((p--)(x), f(x)); EQ(p(x), f(x) - 1); p = f; EQ((++p)(x), f(x) + 1);
    auto A = std::make_pair(f.a, f.b), B = std::make_pair(h.a, h.b);
    EQ(f == h, A == B); EQ(f != h, A != B); EQ(f < h, A < B); EQ(f <= h, A <= B); EQ(f > h, A > B); EQ(f >= h, A >= B);
    EQ((std::pair<i64, i64>(f)), A);
}
PBT(affine_clamp, 40000, "composition in which some clamp is active", 8, 14) {
    auto gen = [&] { i64 a = g.range(-3, 3), b = g.range(-20, 20); switch (g.raw(4)) { case 0: return C(a, b); case 1: return C(a, b, g.range(-20, 20)); case 2: return C(a, b, std::numeric_limits<i64>::min(), g.range(-20, 20)); default: { i64 l = g.range(-20, 20), r = g.range(-20, 20); if (l > r) std::swap(l, r); return g.coin() ? C(a, b, l, r) : C(F(a, b), l, r); } } };
    auto val = [](const C& f, i64 x) { i128 v = i128(f.a) * x + f.b; if (v < f.l) v = f.l; if (v > f.r) v = f.r; return i64(v); };
    int n = g.size(1, 8); std::vector<C> fs; for (int i = 0; i < n; ++i) fs.push_back(gen());
    C acc = C::id(), rac = C::id(); for (auto& f : fs) acc = g.coin() ? f.compose(acc) : C::compose(f, acc); for (int i = n - 1; i >= 0; --i) rac = rac.compose(fs[i]);
    for (int q = 0; q < 6; ++q) { i64 x = g.edgy(-1000000000, 1000000000), y = x; for (auto& f : fs) { i64 z = val(f, y); EQ(f(y), z); if (z != f.a * y + f.b) g.nontrivial(); y = z; } EQ(acc(x), y); EQ(rac(x), y); }
}
