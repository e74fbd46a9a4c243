// FLAGS: -O0
// Unoptimised, because the behaviour of a full-width key used to depend on the optimisation level.
#include "common.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
using namespace hv;
template <class T, int W> static void mexw(Gen& g) {
    using U = std::make_unsigned_t<T>; int n = g.size(0, 40); const U hi = g.coin() ? U(0) : U(U(std::numeric_limits<T>::max()) & ~U(63)); std::vector<T> a(n); for (int i = 0; i < n; ++i) a[i] = T(hi | U(g.raw(3) ? i / 2 : int(g.raw(20)))); g.note("a", a); suisen::RangeXoredMexQuery<T, W> t(a);
    for (int q = 15; q--;) { auto [l, r] = g.seg(n); T x = g.raw(3) ? T(hi ^ U(g.raw(40))) : T(g.u64any() & u64(std::numeric_limits<T>::max())); std::set<U> s; for (int i = l; i < r; ++i) s.insert(U(a[i]) ^ U(x)); U e = 0; while (s.count(e)) ++e; g.note("q ", l, " ", r, " ", x); EQ(u64(U(t.minimum_excluded(l, r, x))), u64(e)); if (e > 1) g.nontrivial(); }
}
PBT(xored_mex_full_width, 2500, "an answer of at least two", 8, 12) { switch (g.raw(4)) { case 0: mexw<int, 32>(g); break; case 1: mexw<unsigned, 32>(g); break; case 2: mexw<unsigned long long, 64>(g); break; default: mexw<long long, 64>(g); } }
