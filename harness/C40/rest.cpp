#include "value.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/manacher.hpp"
#include <atcoder/modint>
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/linear_algebra/xor_base.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/math/unsigned_bigint.hpp"
using namespace hv; using namespace suisen; using mint = atcoder::modint998244353;
static const char* const RULE = "an object is changed after another one was copied, moved, assigned or created";
static i64 iop(i64 a, i64 b) { return a + b; } static i64 ie() { return 0; }
constexpr int N = 8;

struct VHld { using T = HeavyLightDecomposition; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); return T(g, std::vector<int>{ r(N) }); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { o.push_back(t.lca(i, j)), o.push_back(t.dist(i, j)), o.push_back(t.jump(i, j, 1)); } return o; } };
PBT(heavy_light_decomposition_values, 1500, RULE) { values<VHld>(g); }
struct VLca { using T = LowestCommonAncestor; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); return T(g, r(N)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) o.push_back(t.lca(i, j)), o.push_back(t.dist(i, j)); return o; } };
PBT(lowest_common_ancestor_values, 1500, RULE) { values<VLca>(g); }
struct VLa { using T = LevelAncestor; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); return T(g, r(N)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int k = 0; k <= t.get_depth(i); ++k) o.push_back(t.query(i, k)); return o; } };
PBT(level_ancestor_values, 1500, RULE) { values<VLa>(g); }
struct VEt { using T = EulerTour; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); return T(g, r(N)); } static void mut(T&, u64) {} static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) o.push_back(t.lca(i, j)), o.push_back(t.dist(i, j)); return o; } };
PBT(euler_tour_values, 1500, RULE) { values<VEt>(g); }
template <class C, int kind> struct VCont { using T = C; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); T t(r.vec<i64>(N, 0, 99)); for (int i = 0; i < N; ++i) for (int j : g[i]) if (i < j) t.add_edge(i, j); t.build(); return t; } static void mut(T& t, u64 x) { Rnd r(x); int u = r(N); i64 v = r(99); (void)u, (void)v; if constexpr (kind == 1) { t.add(u, v); } else if constexpr (kind == 2) { t.set(u, v); } else t = init(x); } static V obs(T& t) { V o; for (int u = 0; u < N; ++u) for (int d = 0; d < N; ++d) { if constexpr (kind) o.push_back(t.sum(u, d, d + 2)); else o.push_back(t.sum(u, d)); } return o; } };
template <class C> struct VContOp { using T = C; static T init(u64 x) { Rnd r(x); auto g = r.tree(N); T t(N); for (int i = 0; i < N; ++i) for (int j : g[i]) if (i < j) t.add_edge(i, j); t.build(r.vec<i64>(N, 0, 99)); return t; } static void mut(T& t, u64 x) { Rnd r(x); int d = r(N); t.apply(r(N), d, d + 1 + r(3), r(99)); } static V obs(T& t) { V o; for (int u = 0; u < N; ++u) o.push_back(t.get(u)); return o; } };
static i64 iadd(i64 x, i64 y) { return x + y; }
static i64 ineg(i64 x) { return -x; }
static i64 izero() { return 0; }
PBT(point_get_contour_add_values, 1000, RULE) { values<VContOp<PointGetRangeContourAddOnTree<i64, i64, iadd, iadd, izero, ineg>>>(g); }
PBT(point_get_contour_operate_values, 1000, RULE) { values<VContOp<PointGetRangeContourOperate<i64, i64, iadd, iadd, izero>>>(g); }
PBT(point_add_contour_sum_invertible_values, 1000, RULE) { values<VCont<PointAddRangeContourSumOnTree<i64>, 1>>(g); }
PBT(range_contour_sum_values, 1000, RULE) { values<VCont<RangeContourSumOnTree<i64>, 3>>(g); }
PBT(contour_sum_values, 1000, RULE) { values<VCont<ContourSumOnTree<i64>, 0>>(g); }
PBT(point_add_contour_sum_values, 1000, RULE) { values<VCont<PointAddRangeContourSum<i64, iop, ie>, 1>>(g); }
PBT(point_set_contour_sum_values, 1000, RULE) { values<VCont<PointSetRangeContourSum<i64, iop, ie>, 2>>(g); }
struct VCls { using T = RootedTreeClassifier<>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); auto g = r.tree(r.in(1, N)); t.classify(g, 0); } static V obs(T& t) { V o; std::map<int, int> seen; for (int x = 0; x < 12; ++x) { Rnd r(x); auto g = r.tree(x % 5 + 1); for (int v : t.classify_rerooting(g)) o.push_back(seen.emplace(v, (int)seen.size()).first->second); } return o; } };
PBT(rooted_tree_classifier_values, 700, RULE) { values<VCls>(g); }
struct VCsr { using T = Graph<int>; static T init(u64 x) { Rnd r(x); std::vector<std::tuple<int, int, int>> e; for (int k = r(12); k--;) e.emplace_back(r(N), r(N), r(50)); return T::create_directed_graph(N, e); } static void mut(T& t, u64 x) { Rnd r(x); int u = r(N); switch (r(4)) { case 0: case 1: if (t[u].size() < t[u].capacity()) t[u].emplace_back(r(N), r(50)); break; case 2: if (t[u].size()) t[u].pop_back(); break; default: t.shrink_to_fit(); } } static V obs(T& t) { V o; const T& c = t; for (int u = 0; u < N; ++u) { o.push_back(c[u].size()); for (const auto& e : c[u]) o.push_back(int(e)), o.push_back(c.get_weight(e)); } auto r = c.reversed(); for (int u = 0; u < N; ++u) o.push_back(r[u].size()); return o; } };
PBT(csr_graph_values, 2500, RULE) { values<VCsr>(g); }
struct VFun { using T = FunctionalGraph; static T init(u64 x) { Rnd r(x); return T(r.vec(N, 0, N - 1)); } static void mut(T& t, u64 x) { Rnd r(x); t[r(N)] = r(N); } static V obs(T& t) { V o; auto d = t.doubling(100); for (int u = 0; u < N; ++u) o.push_back(t[u]), o.push_back(d.query(u, 77)); return o; } };
PBT(functional_graph_values, 1500, RULE) { values<VFun>(g); }
struct VLow { using T = LowLink; static T init(u64 x) { Rnd r(x); T t(N); for (int k = r(12); k--;) t.add_edge(r(N), r(N)); t.build(); return t; } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; auto b = t.bridge_ids(); auto a = t.articulation_points(); std::sort(b.begin(), b.end()), std::sort(a.begin(), a.end()); put(o, b), put(o, a); o.push_back(t.connected_component_num()); return o; } };
PBT(low_link_values, 1500, RULE) { values<VLow>(g); }
struct VMcf { using T = MinCostFlow<i64, i64>; static T init(u64) { return T(N); } static void mut(T& t, u64 x) { Rnd r(x); if (r(5)) { int u = r(N), v = r(N); if (u > v) std::swap(u, v); if (u != v) t.add_edge(u, v, r(5), r(9)); } else t.min_cost_max_flow(0, N - 1, 2); } static V obs(T& t) { V o; for (auto e : t.get_edges()) put(o, V{ e.from, e.to, e.cap, e.cost }); return o; } };
PBT(min_cost_flow_values, 1500, RULE) { values<VMcf>(g); }
struct VBip { using T = BipartiteMatching; static T init(u64) { return T(6, 5); } static void mut(T& t, u64 x) { Rnd r(x); t.add_edge(r(6), r(5)); } static V obs(T& t) { V o{ t.solve(), (i64)t.min_vertex_cover().size(), (i64)t.max_independent_set().size() }; auto g = t.graph(); for (auto& a : g) { auto b = a; std::sort(b.begin(), b.end()); put(o, b); } return o; } };
PBT(bipartite_matching_values, 1500, RULE) { values<VBip>(g); }
struct VEul { using T = DirectedEulerianGraph; static T init(u64) { return T(4); } static void mut(T& t, u64 x) { Rnd r(x); t.add_edge(r(4), r(4)); } static V obs(T& t) { V o; auto c = t.eulerian_circuit(); auto p = t.eulerian_trail(); o.push_back(c.has_value()), o.push_back(p.has_value()); for (int u = 0; u < 4; ++u) { auto a = t[u]; std::sort(a.begin(), a.end()); put(o, a); } return o; } };
PBT(eulerian_graph_values, 1500, RULE) { values<VEul>(g); }
struct VHorn { using T = HornSAT; static T init(u64) { return T(5); } static void mut(T& t, u64 x) { Rnd r(x); std::vector<int> l; for (int k = r(3); k--;) l.push_back(r(5)); t.add_clause(l, r(5), r(3) > 0); } static V obs(T& t) { V o; bool s = t.satisfiable(); o.push_back(s); if (s) for (bool b : t.answer()) o.push_back(b); return o; } };
PBT(horn_sat_values, 1500, RULE) { values<VHorn>(g); }
struct VOdc { using T = OfflineDynamicConnectivity; static T init(u64) { return T(5); } static void mut(T& t, u64 x) { Rnd r(x); if (r(2)) t.add_query(r(5), r(5)); else t.connectivity_query(r(5), r(5)); } static V obs(T& t) { V o; for (bool b : t.answer()) o.push_back(b); return o; } };
PBT(offline_dynamic_connectivity_values, 1500, RULE) { values<VOdc>(g); }
template <class A> struct VAho { using T = A; static T init(u64 x) { Rnd r(x); T t; for (int k = r.in(1, 4); k--;) t.add(r.str(r.in(1, 4))); t.build(); return t; } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; int s = t.init_state(); for (char c : std::string("abcabaacbbcaababcca")) { s = t.next_state(s, c); o.push_back(t.count_suffix_matching(s)); } return o; } };
PBT(aho_corasick_values, 1500, RULE) { values<VAho<AhoCorasick<char>>>(g); }
PBT(aho_corasick_array_values, 1500, RULE) { values<VAho<AhoCorasickArray<26, 'a'>>>(g); }
struct VCmp { using T = CompareSubstring<>; static T init(u64 x) { Rnd r(x); return T(r.str(N, 2)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { int c = t.compare(i, N, j, std::min(N, j + 3)); o.push_back((c > 0) - (c < 0)), o.push_back(t.lcp(i, N, j, N)); } return o; } };
PBT(compare_substring_values, 1500, RULE) { values<VCmp>(g); }
struct VPal { using T = PalindromicTree<char, std::string>; static T init(u64 x) { Rnd r(x); T t; for (char c : r.str(r(6), 2)) t.add(c); return t; } static void mut(T& t, u64 x) { Rnd r(x); t.add(char('a' + r(2))); } static V obs(T& t) { V o; std::vector<std::string> p; for (int i = 2; i < t.node_num(); ++i) p.push_back(t.get_palindrome(i)); std::sort(p.begin(), p.end()); for (auto& s : p) put(o, s); return o; } };
PBT(palindromic_tree_values, 1500, RULE) { values<VPal>(g); }
struct VRh { using T = RollingHash<2>; static T init(u64 x) { Rnd r(x); return T(r.vec(N, 0, 9)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int l = 0; l <= N; ++l) for (int r = l; r <= N; ++r) { auto h = t(l, r); o.push_back(h[0]), o.push_back(h[1]); } return o; } };
PBT(rolling_hash_values, 1500, RULE) { values<VRh>(g); }
struct VSub { using T = SubstringSet<int>; static T init(u64 x) { Rnd r(x); return T(r.vec(6, 0, 1)); } static void mut(T& t, u64 x) { Rnd r(x); t.build(r.vec(r.in(1, 7), 0, 1)); } static V obs(T& t) { V o{ (i64)t.size() }; for (i64 i = 0; i < (i64)t.size(); ++i) put(o, t[i]); i64 k = 0; for (auto it = t.begin(); it != t.end(); ++it) k += (*it).size(); o.push_back(k); return o; } };
PBT(substring_set_values, 1000, RULE) { values<VSub>(g); }
struct VSam { using T = SuffixAutomaton<char>; static T init(u64 x) { Rnd r(x); return T(r.str(4, 2)); } static void mut(T& t, u64 x) { Rnd r(x); t += char('a' + r(2)); } static V obs(T& t) { V o; auto c = t.substring_counter(); for (int k = 0; k < 40; ++k) { Rnd r(k); auto s = r.str(k % 5, 2); o.push_back(t.accept(s)), o.push_back(c.count(s)); } return o; } };
PBT(suffix_automaton_values, 1500, RULE) { values<VSam>(g); }
struct VMan { using T = Manacher; static T init(u64 x) { Rnd r(x); return T(r.str(N, 2), '$'); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) o.push_back(t.odd_length(i)); for (int i = 0; i < N; ++i) o.push_back(t.even_length(i)); return o; } };
PBT(manacher_values, 1500, RULE) { values<VMan>(g); }
struct VRel { using T = RelaxedConvolutionNTT<mint>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); for (int k = r.in(1, 9); k--;) t.append(r(1000), r(1000)); } static V obs(T& t) { V o; for (mint v : t.get()) o.push_back(v.val()); return o; } };
PBT(relaxed_convolution_values, 1500, RULE) { values<VRel>(g); }
struct VSem { using T = SemiRelaxedConvolutionNTT<mint>; static T init(u64 x) { Rnd r(x); std::vector<mint> f(r(9) + 1); for (auto& v : f) v = r(1000); return T(f); } static void mut(T& t, u64 x) { Rnd r(x); for (int k = r.in(1, 9); k--;) t.append(r(1000)); } static V obs(T& t) { V o; for (mint v : t.get()) o.push_back(v.val()); return o; } };
PBT(semi_relaxed_convolution_values, 1500, RULE) { values<VSem>(g); }
template <class R, int c0> struct VOnl { struct T { R t; int n = 0; }; static T init(u64) { T t; app(t, c0); return t; } static void app(T& t, int v) { if constexpr (std::is_same_v<R, RelaxedSqrt<mint>>) { t.t.append(v); } else t.t.append(v); ++t.n; } static void mut(T& t, u64 x) { Rnd r(x); for (int k = r.in(1, 6); k--;) app(t, r(1000)); } static V obs(T& t) { V o; for (int i = 0; i < t.n; ++i) o.push_back(mint(t.t[i]).val()); return o; } };
PBT(relaxed_inv_values, 1200, RULE) { values<VOnl<RelaxedInv<mint>, 3>>(g); }
PBT(relaxed_exp_values, 1200, RULE) { values<VOnl<RelaxedExp<mint>, 0>>(g); }
PBT(relaxed_log_values, 1200, RULE) { values<VOnl<RelaxedLog<mint>, 1>>(g); }
PBT(relaxed_sqrt_values, 1200, RULE) { values<VOnl<RelaxedSqrt<mint>, 1>>(g); }
struct VXor { using T = XorBase<unsigned>; static T init(u64 x) { Rnd r(x); return T(r.vec<unsigned>(3, 0, 63)); } static void mut(T& t, u64 x) { Rnd r(x); if (r(3)) t += unsigned(r(64)); else t = t & T(r.vec<unsigned>(4, 0, 63)); } static V obs(T& t) { V o{ t.dim() }; std::vector<unsigned> b = t.get_basis(); std::set<unsigned> s{ 0 }; for (unsigned v : b) { auto u = s; for (unsigned w : u) s.insert(v ^ w); } put(o, s); return o; } };
PBT(xor_base_values, 1500, RULE) { values<VXor>(g); }
// each object works modulo its own number, also when objects of different moduli are used in turn
struct VOrd { using T = OrderMod<long long>; static T init(u64 x) { Rnd r(x); return T(r.in(1, 200)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o{ t.mod(), t.totient(), t.carmichael() }; for (int a = 0; a < t.mod() && a < 30; ++a) { if (std::__gcd<i64>(a, t.mod()) == 1) o.push_back(t(a)); o.push_back(t.is_primitive_root(a)); } return o; } };
PBT(order_mod_values, 1200, RULE) { values<VOrd>(g); }
struct VCoo { using T = CoordinateCompressorBuilder<int>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); t.push(r(30)); } static V obs(T& t) { V o; auto c = T(t).build(); o.push_back(c.size()); for (int i = 0; i < c.size(); ++i) o.push_back(c.decomp(i)); return o; } };
PBT(coordinate_compressor_values, 1500, RULE) { values<VCoo>(g); }
struct VCum { using T = CumulativeSum2D<i64>; static T init(u64 x) { Rnd r(x); std::vector<std::vector<i64>> a(4); for (auto& v : a) v = r.vec<i64>(3, -9, 9); return T(a); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int i = 0; i <= 4; ++i) for (int j = 0; j <= 3; ++j) o.push_back(t(0, i, 0, j)); return o; } };
PBT(cumulative_sum_2d_values, 1500, RULE) { values<VCum>(g); }
struct VRle { using T = RunLengthEncoder<std::string>; static T init(u64 x) { Rnd r(x); return T(r.str(6, 2)); } static void mut(T& t, u64 x) { Rnd r(x); if (r(2)) t.push_back(char('a' + r(2)), r.in(1, 3)); else if (t.length()) t.pop_back(r.in(1, 2)); } static V obs(T& t) { V o{ t.length() }; for (auto& [c, n] : t) o.push_back(c), o.push_back(n); return o; } };
PBT(run_length_encoder_values, 1500, RULE) { values<VRle>(g); }
struct VBig { using T = unsigned_bigint; static T init(u64 x) { return T(x); } static void mut(T& t, u64 x) { Rnd r(x); switch (r(5)) { case 0: t *= T(r(1000000)); break; case 1: t += t; break; case 2: t *= t; if (T(1) << 300 < t) t = T(r(99)); break; case 3: t -= t / T(3); break; default: ++t; } } static V obs(T& t) { V o; std::stringstream s; s << t; put(o, s.str()); return o; } };
PBT(unsigned_bigint_values, 1500, RULE) { values<VBig>(g); }
