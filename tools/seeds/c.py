SEEDS = [
dict(id="S14", property="C40", file="datastructure/bit_vector.hpp",
 edits=[("n = bv.n, nl = bv.nl, ns = bv.ns, cum_l = bv.cum_l, cum_s = bv.cum_s, bits = bv.bits;", "n = bv.n, nl = bv.nl, ns = bv.ns, cum_l.resize(nl), cum_s = bv.cum_s, bits = bv.bits;")],
 demo='''#include <vector>
#include "library/datastructure/bit_vector.hpp"
int main() { suisen::BitVector a(1000, [](int i) { return i % 3 == 0; }), b(1000, [](int i) { return i % 7 == 0; }); b = a; for (int i = 0; i <= 1000; ++i) if (b.rank(true, i) != a.rank(true, i)) return 1; return 0; }
''', needs="copy assignment of a bit vector of at least 256 bits", breaks="the copy keeps the block counts of the vector it replaced"),
dict(id="S15", property="C30", file="polynomial/subset_sum.hpp", acl=True,
 edits=[("mint p = mint(2).pow(a[0]);", "mint p = 1ULL << (a[0] & 63);")],
 demo='''#include <vector>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/subset_sum.hpp"
#include <atcoder/modint>
using mint = atcoder::modint998244353;
int main() { std::vector<int> it(70, 0); it.push_back(2); it.push_back(3); auto r = suisen::subset_sum<suisen::FormalPowerSeries<mint>>(6, it); mint p = mint(2).pow(70); int w[7] = { 1, 0, 1, 1, 0, 1, 0 }; for (int i = 0; i <= 6; ++i) if (r[i] != p * w[i]) return 1; return 0; }
''', needs="64 or more items of weight zero", breaks="the number of ways to choose the zero items is reduced modulo 2^64 positions instead of the modulus"),
]
