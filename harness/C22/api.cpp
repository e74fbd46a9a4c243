#include "common.hpp"
#include "library/number/enumerate_quotient.hpp"
using namespace hv;
// above 2^53 the enumeration switches to integer division
PBT(quotients_beyond_double, 2, "every case") {
    i64 n = (1LL << 53) + (g.coin() ? g.in(-1, 3) : (i64)g.raw(1LL << 40)); if (g.chance(1, 3)) { i64 h = g.in(94906266, 94907000); n = h * (h + g.in(-1, 1)); } g.note(n);
    i64 last = 0, cnt = 0; bool asc = true; i64 bad = 0; i64 probe = 1 + g.raw(2000000); u64 h = 0; suisen::foreach_quotients<i64>(n, [&](i64 q) { asc &= q > last; last = q; ++cnt; if (cnt % probe == 0 && n / (n / q) != q) bad = q; });
    CKM(asc, "strictly ascending"); EQ(last, n); EQ(cnt, suisen::quotient_num<i64>(n)); EQ(bad, 0LL); g.nontrivial();
}
