// Contest-scale runs of the small utilities.
#include "large.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include "library/util/coordinate_compressor.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/hashes.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/permutation.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/rot90.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/step_sum.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/zobrist_hash.hpp"
using namespace hv; using namespace suisen; using std::vector;
PBT(compressor_large, 4, "every case: past 2^16 distinct keys") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 300000); i64 R = g.pick({ i64(200000), i64(1000000000), i64(4000000000000000000) }); auto a = b.vec<i64>(n, -R, R); using B = CoordinateCompressorBuilder<i64>; auto c = g.coin() ? B::build(a) : [&] { B t; for (i64 x : a) t.push(x); return t.build(); }();
    auto xs = a; std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); int m = xs.size(); EQ(c.size(), m); std::vector<int> id; for (i64 x : a) id.push_back(c.comp(x)); EQ((int)id.size(), n); for (int i = 0; i < n; ++i) CKM(0 <= id[i] && id[i] < m && xs[id[i]] == a[i] && c.decomp(id[i]) == a[i], "compressed index");
    for (int t = 0; t < 100000; ++t) { i64 e = b.range(-R, R); int lt = std::lower_bound(xs.begin(), xs.end(), e) - xs.begin(); bool has = lt < m && xs[lt] == e; auto at = [&](int i) { return 0 <= i && i < m ? xs[i] : i64(77); }; CKM(c.has_key(e) == has && c.comp(e) == (has ? lt : -1) && c.min_geq(e, 77) == at(lt) && c.min_gt(e, 77) == at(lt + has) && c.max_lt(e, 77) == at(lt - 1) && c.max_leq(e, 77) == at(lt + has - 1), "query"); }
}
PBT(cumulative_large, 3, "every case: past 2^16 elements") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 300000); auto a = b.vec<i64>(n, -20000000000000LL, 20000000000000LL); CumulativeSum<i64> s(a); vector<i64> p(n + 1); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + a[i]; for (int t = 0; t < 100000; ++t) { auto [l, r] = b.seg(n); CKM(s(l, r) == p[r] - p[l], "range sum"); }
    int st = g.pick({ 1, 2, 7, 1000, 65536, 100000 }); StepSum S(a, st); vector<i64> q(a); for (int i = st; i < n; ++i) q[i] += q[i - st]; for (int t = 0; t < 100000; ++t) { auto [l, r] = b.seg(n); int k = b.raw(st); i64 e = 0; int f = l + ((k - l) % st + st) % st; if (f < r) { int e1 = f + (r - 1 - f) / st * st; e = q[e1] - (f >= st ? q[f - st] : 0); } CKM(S(k, l, r) == e, "residue class sum"); }
    int h = g.pick({ 1, 300, 1000, 70000 }), w = 600000 / h / 2 + 1; vector<vector<i64>> A(h, vector<i64>(w)); for (auto& r : A) for (auto& x : r) x = b.range(-1000000000, 1000000000); CumulativeSum2D<i64> s2(A); auto P = vector<vector<i64>>(h + 1, vector<i64>(w + 1)); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) P[i + 1][j + 1] = P[i][j + 1] + P[i + 1][j] - P[i][j] + A[i][j]; for (int t = 0; t < 100000; ++t) { auto [u, d] = b.seg(h); auto [l, r] = b.seg(w); CKM(s2(u, d, l, r) == P[d][r] - P[u][r] - P[d][l] + P[u][l], "rectangle sum"); }
    auto T = transpose(A), Q = rot90(A); CKM((int)T.size() == w && (int)Q.size() == w, "shape"); for (int j = 0; j < w; ++j) { CKM((int)T[j].size() == h && (int)Q[j].size() == h, "shape"); for (int i = 0; i < h; ++i) CKM(T[j][i] == A[i][j] && Q[j][i] == A[i][w - 1 - j], "cell"); }
}
PBT(permutation_past_2_16, 4, "every case: past 2^16 elements") {
    Bulk b(g); g.nontrivial(); int n = big_n(g, 300000); auto pv = g.coin() ? b.perm(n) : [&] { vector<int> v(n), o = b.perm(n); for (int i = 0; i < n; ++i) v[o[i]] = o[(i + 1) % n]; return v; }(); Permutation p(pv); i64 K = g.coin() ? (i64)(g.u64any() >> 1) : (i64)b.raw(3000000); auto e = vector<int>(n, -1); for (int i = 0; i < n; ++i) if (e[i] < 0) { vector<int> c; for (int x = i; c.empty() || x != i; x = pv[x]) c.push_back(x); int l = c.size(); for (int j = 0; j < l; ++j) e[c[j]] = c[(j + K % l) % l]; } g.note(n, K); CKM((vector<int>)p.pow(K) == e, "power"); auto q = p.inv(); for (int i = 0; i < n; ++i) CKM(q[p[i]] == i, "inverse");
    i64 R = g.pick({ 5, 1000000000 }); auto a = b.vec<i64>(n, -R, R); auto so = Permutation::index_sort(a).permute(a); auto w = a; std::sort(w.begin(), w.end()); CKM(so == w, "index_sort");
    auto z = p.inv_permute(p.permute(a)); CKM(z == a, "inv_permute inverts permute");
}
namespace { struct Nd { i64 a; int v; Nd(i64 a = 0, int v = 0) : a(a), v(v) {} }; using Pp = ptr32<Nd>; }
PBT(pools_large, 3, "every case: past 2^16 live objects") {
    Bulk b(g); g.nontrivial(); int n = big_n(g); { ObjectPool<Nd, true> p(g.pick({ 0, 1, 100, 70000 })); vector<Nd*> live; for (int i = 0; i < n; ++i) { auto* o = p.alloc(); o->a = (i64)o ^ i, o->v = i; live.push_back(o); if (!b.raw(5)) { int j = b.raw(live.size()); CKM(live[j]->a == ((i64)live[j] ^ live[j]->v), "contents"); p.free(live[j]); live[j] = live.back(); live.pop_back(); } } std::set<Nd*> s(live.begin(), live.end()); CKM(s.size() == live.size(), "distinct objects"); for (auto* o : live) CKM(o->a == ((i64)o ^ o->v), "contents untouched"); CKM(p.capacity() >= (int)live.size(), "capacity"); }
    { Pp::dealloc_all(true); vector<std::pair<Pp, int>> live; for (int i = 0; i < n; ++i) { live.emplace_back(Pp::alloc((i64)i * 7919, i), i); if (!b.raw(5)) { int j = b.raw(live.size()); CKM(live[j].first->v == live[j].second, "contents"); Pp::dealloc(live[j].first); live[j] = live.back(); live.pop_back(); } } std::set<int> s; for (auto& [p, v] : live) { s.insert(int(p)); CKM(p->v == v && p->a == (i64)v * 7919, "contents untouched"); } CKM(s.size() == live.size(), "distinct pointers"); Pp::dealloc_all(true); }
    { RunLengthEncoder<vector<int>> e; vector<std::pair<int, i64>> m; i64 len = 0; for (int i = 0; i < n; ++i) { if (b.raw(3) || m.empty()) { int c = b.raw(3); i64 k = b.raw(4) ? 1 + b.raw(5) : 1 + b.raw(5000000000ULL); e.push_back(c, k); len += k; if (m.size() && m.back().first == c) m.back().second += k; else m.emplace_back(c, k); } else { i64 k = b.raw(4) ? b.raw(9) : b.raw(6000000000ULL), r = 0; while (m.size() && r < k) { i64 t = std::min(k - r, m.back().second); r += t; if (!(m.back().second -= t)) m.pop_back(); } len -= r; EQ((i64)e.pop_back(k), r); } } EQ((i64)e.length(), len); CKM((vector<std::pair<int, i64>>(e.begin(), e.end()) == m), "runs"); auto s = b.vec<int>(n, 0, 1); RunLengthEncoder<vector<int>> f(s); size_t at = 0; for (auto& [c, k] : f) for (i64 t = 0; t < k; ++t) { CKM(at < s.size() && s[at] == c, "decoded element"); ++at; } EQ(at, s.size()); }
}
PBT(hashes_large, 3, "every case: past 2^16 keys") {
    Bulk b(g); g.nontrivial(); int n = big_n(g); std::unordered_map<std::pair<int, i64>, int> m; std::map<std::pair<int, i64>, int> r; int R = g.pick({ 300, 1000000000 }); for (int i = 0; i < n; ++i) { std::pair<int, i64> k{ b.in(-R, R), b.range(-R, R) }; m[k] += i; r[k] += i; } EQ(m.size(), r.size()); for (auto& [k, v] : r) { auto it = m.find(k); CKM(it != m.end() && it->second == v, "value"); }
    // equal multisets by xor hash: distinct ids hash to distinct values, a set hashes to the same value whatever the order
    VecZobristHash<> z; auto p = b.perm(n); u64 h = 0, h2 = 0; std::set<u64> s; for (int i = 0; i < n; ++i) { auto x = z(p[i]); h ^= x; s.insert(x); } for (int i = 0; i < n; ++i) h2 ^= z(i); EQ(h, h2); EQ((int)s.size(), n);
}
