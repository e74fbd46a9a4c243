SEEDS = [
dict(id="S04", property="C09", file="datastructure/deque_aggregation.hpp",
 edits=[("            _st_r[0].second = _st_r[0].first;\n", "")],
 demo='''#include <vector>
#include <cassert>
#include <cstddef>
#include "library/datastructure/deque_aggregation.hpp"
long long op(long long a, long long b) { return a + b; } long long e() { return 0; }
int main() { suisen::DequeAggregation<long long, op, e> d; for (int i = 1; i <= 6; ++i) d.push_back(i); d.pop_front(); if (d.prod() != 20) return 1; for (int i = 0; i < 2; ++i) d.pop_front(); return d.prod() == 15 ? 0 : 1; }
''', needs="a pop_front that has to split the right stack (left stack empty, at least two elements)", breaks="the first remaining element of the right stack keeps the old prefix sum, so prod() counts popped elements"),
dict(id="S06", property="C21", file="number/deterministic_miller_rabin.hpp",
 edits=[("THRESHOLD_1 = 341531ULL", "THRESHOLD_1 = 1373653ULL")],
 demo='''#include <cstdint>
#include <array>
#include "library/number/deterministic_miller_rabin.hpp"
int main() { auto slow = [](unsigned n) { for (unsigned d = 2; d * d <= n; ++d) if (n % d == 0) return false; return n > 1; };
  for (unsigned n = 341000; n < 1373700; ++n) if (suisen::miller_rabin::is_prime(n) != slow(n)) return 1; return 0; }
''', needs="one of the few composites between 341531 and 1373653 that pass the single base test", breaks="a composite is reported prime"),
dict(id="S07", property="C20", file="string/suffix_automaton.hpp",
 edits=[("for (; p != -1 and nodes[p].nxt[c] == q; p = nodes[p].link) nodes[p].nxt[c] = clone_node;", "for (; p > 0 and nodes[p].nxt[c] == q; p = nodes[p].link) nodes[p].nxt[c] = clone_node;")],
 demo='''#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <limits>
#include "library/string/suffix_automaton.hpp"
int main() { for (int m = 0; m < 1 << 9; ++m) { std::string s; for (int i = 0; i < 9; ++i) s += "ab"[m >> i & 1]; std::set<std::string> w; for (int i = 0; i < 9; ++i) for (int l = 1; i + l <= 9; ++l) w.insert(s.substr(i, l)); suisen::SuffixAutomaton a(s); long long c = 0; for (size_t i = 1; i < a.nodes.size(); ++i) c += a.nodes[i].len - a.nodes[a.nodes[i].link].len; if (c != (long long)w.size()) return 1;
   std::vector<long long> ways(a.nodes.size(), -1); auto dfs = [&](auto self, int u) -> long long { long long& x = ways[u]; if (x >= 0) return x; x = 1; for (auto& [ch, v] : a.nodes[u].nxt) x += self(self, v); return x; }; if (dfs(dfs, 0) - 1 != (long long)w.size()) return 1; } return 0; }
''', needs="a clone reached through a transition of the initial state (a letter first seen inside a longer context)", breaks="the initial state keeps pointing to the uncloned state, so walks do not enumerate the distinct substrings"),
dict(id="S08", property="C17", file="graph/scc_tournament.hpp",
 edits=[("removed_num += num;", "removed_num = num;")],
 demo='''#include <vector>
#include "library/graph/scc_tournament.hpp"
int main() { for (int n = 1; n < 8; ++n) { std::vector<int> d(n); for (int i = 0; i < n; ++i) d[i] = i; if ((int)suisen::scc_tournament(d).size() != n) return 1; } return 0; }
''', needs="at least three strongly connected components", breaks="components after the second are merged or split wrongly"),
dict(id="S09", property="C20", file="string/aho_corasick.hpp",
 edits=[("            _failure.assign(n, 0);\n            _count.assign(n, 0);", "            _failure.resize(n, 0);\n            _count.resize(n, 0);")],
 demo='''#include <string>
#include <utility>
#include "library/string/aho_corasick.hpp"
int main() { suisen::AhoCorasick<char> a; a.add(std::string("ab")); a.build(); a.add(std::string("b")); a.build(); int s = a.init_state(); long long c = 0; for (char x : std::string("abab")) { s = a.next_state(s, x); c += a.count_suffix_matching(s); } return c == 4 ? 0 : 1; }
''', needs="words added and build() called again after a first build()", breaks="the occurrence counts of the first build are counted twice"),
dict(id="S10", property="C38", file="graph/dijkstra.hpp",
 edits=[("if (du == _dist[u]) transition(u, du, g(u));", "if (du >= _dist[u]) transition(u, _dist[u], g(u));")],
 demo='''#include <cassert>
#include <algorithm>
#include <limits>
#include <queue>
#include <vector>
#include "library/graph/dijkstra.hpp"
// n sources improve the same hub n times; the hub has n out-edges
int main() { const int n = 1500; long long calls = 0; auto f = [&](int u, long long du, auto g) { auto go = [&](int v, long long c) { ++calls; g(v, c); }; if (u == 0) { for (int i = 1; i <= n; ++i) go(i, i); } else if (u <= n) go(n + 1, du + 2LL * (n - u) + 10 * n); else if (u == n + 1) for (int i = 0; i < n; ++i) go(n + 2 + i, du + 1); };
  suisen::dijkstra<long long> d(2 * n + 2, f, 0); if (d[n + 1] != n + 10LL * n) return 1; return calls <= 4LL * n ? 0 : 1; }
''', needs="a vertex of large out-degree whose tentative distance is improved many times before it is settled", breaks="stale heap entries relax their edges again: quadratic instead of O(m log n)"),
dict(id="S11", property="C39", file="graph/bfs01.hpp",
 edits=[("#include <limits>\n", "")],
 demo='''#include <cstdlib>
int main() { return std::system("echo '#include \\"library/graph/bfs01.hpp\\"' | g++-10 -std=gnu++17 -w -fsyntax-only -I . -I ac-library -x c++ - 2>/dev/null") ? 1 : 0; }
''', needs="a translation unit whose other includes do not bring in <limits>", breaks="the header does not compile on its own"),
dict(id="S12", property="C14", file="tree/auxiliary_tree.hpp",
 edits=[("                    _upd.push_back(w);\n", "")],
 demo='''#include <vector>
#include <algorithm>
#include "library/tree/auxiliary_tree.hpp"
int main() { std::vector<std::vector<int>> g(4); auto ae = [&](int u, int v) { g[u].push_back(v); g[v].push_back(u); }; ae(0, 1); ae(1, 2); ae(1, 3); suisen::AuxiliaryTree t(g); std::vector<int> a{ 2, 3 }; t.build(a); std::vector<int> b{ 1, 2 }; t.build(b); return t[1].size() == 1 && t[2].size() == 1 && t[3].empty() ? 0 : 1; }
''', needs="two builds on the same object, the first of which inserts a branching vertex that was not requested", breaks="edges of the earlier auxiliary tree remain"),
dict(id="S13", property="C10", file="datastructure/bit_vector.hpp",
 edits=[("cum_l[index_l] = cum_l[index_l - 1] + count;", "cum_l[index_l] = cum_l[index_l - 1] + (count & 0xff);")],
 demo='''#include <vector>
#include <cstdint>
#include "library/datastructure/bit_vector.hpp"
int main() { for (int n : { 100, 255, 256, 512, 1000 }) { suisen::BitVector b(n, [](int) { return true; }); for (int i = 0; i <= n; ++i) if (b.rank(true, i) != i) return 1; } return 0; }
''', needs="a large block whose 256 bits are all set", breaks="rank loses 256 after a completely full block"),
]
