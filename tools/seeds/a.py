SEEDS = [
dict(id="S01", property="C01", file="datastructure/segment_tree/segment_tree.hpp",
 edits=[("for (k >>= 1; k; k >>= 1) update(k);", "for (k >>= 1; k > 1; k >>= 1) update(k);")],
 demo='''#include "library/datastructure/segment_tree/segment_tree.hpp"
long long op(long long a, long long b) { return a + b; } long long e() { return 0; }
int main() { suisen::SegmentTree<long long, op, e> t(std::vector<long long>{1, 2, 3}); t.set(1, 10); return t.all_prod() == 14 && t(0, 3) == 14 ? 0 : 1; }
''', needs="a point update followed by a fold that reads the root (all_prod, or a full range of power-of-two size)", breaks="the root aggregate goes stale after point updates"),
dict(id="S02", property="C02", file="datastructure/segment_tree/lazy_segment_tree.hpp",
 edits=[("            for (int i = lg; i >= 1; --i) push(l >> i);\n            value_type sum", "            for (int i = lg; i >= 2; --i) push(l >> i);\n            value_type sum")],
 demo='''#include <iostream>
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
struct D { long long s; int n; };
D op(D a, D b) { return { a.s + b.s, a.n + b.n }; } D e() { return { 0, 0 }; }
D mp(long long f, D x) { return { x.s + f * x.n, x.n }; } long long cmp(long long f, long long g) { return f + g; } long long id() { return 0; }
int main() { std::vector<D> a(8, D{ 1, 1 }); suisen::LazySegmentTree<D, op, e, long long, mp, cmp, id> t(a);
  t.apply(2, 4, 100); return t.max_right(3, [](D d) { return d.s <= 50; }) == 3 ? 0 : 1; }
''', needs="a pending range operator on the two-leaf node above the odd start index of a max_right search, with no read in between", breaks="max_right ignores a pending operator"),
dict(id="S03", property="C02", file="algebra/monoid/affine_clamp.hpp",
 edits=[("            if (h.l > h.r) std::swap(h.l, h.r);\n", "")],
 demo='''#include <tuple>
#include <iostream>
#include "library/algebra/monoid/affine_clamp.hpp"
int main() { using F = suisen::AffineClamp<int>; F g(1, 0, 0, 10), f(-2, 3, -100, 100); F h = F::compose(f, g);
  for (int x = -20; x <= 20; ++x) if (h(x) != f(g(x))) return 1; return 0; }
''', needs="composition with a negative slope outside of a clamp", breaks="the composed clamp has its bounds reversed, so compose(f,g)(x) != f(g(x))"),
]
