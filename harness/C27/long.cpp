// FLAGS: -O2 -fno-sanitize=all
#include "num.hpp"
#include "library/convolution/convolution_2_64.hpp"
using namespace hv; using namespace suisen;
PBT(mod_2_64_longest, 1, "total length above 2^22") { int n = (1 << 22) + 1, m = 61 + (int)g.raw(60); std::vector<unsigned long long> p(n), q(m), w(n + m - 1); for (auto& x : q) x = g.raw(~0ULL); for (int t = 0; t < 200; ++t) p[t < 3 ? n - 1 - t : t < 6 ? t : (int)g.raw(n)] = g.raw(~0ULL); for (int i = 0; i < n; ++i) if (p[i]) for (int j = 0; j < m; ++j) w[i + j] += p[i] * q[j]; CK(convolution_mod_2_64(p, q) == w); g.nontrivial(true); }
