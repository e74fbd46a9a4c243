#include "large.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace hv;
static RS mp(A f, RS x, int) { return rs_map(f, x); }
using L0 = suisen::LinkCutTree<RS>; using L1 = suisen::LinkCutTreePathFoldable<RS, rs_op, rs_e, rs_tog>; using L2 = suisen::LinkCutTreePathFoldableLazy<RS, rs_op, rs_e, A, mp, a_comp, a_id, rs_tog>;
// a tree is linked edge by edge, queried, partly cut, relinked as another tree and queried again
template <class T, int K> static void lct(Gen& g) {
    using Np = typename T::node_pointer_type; int n = big_n(g, K == 2 ? 70000 : 100000); int s1 = g.raw(8), s2 = g.raw(8), order = g.raw(3); Bulk b(g); g.note("n ", n, " shapes ", s1, " ", s2, " order ", order); g.nontrivial();
    std::vector<Z> a(n); std::vector<RS> v; for (auto& x : a) x = (i64)b.raw(100), v.push_back(rs_of(x)); T::init_pool(n + 2); auto nd = T::make_nodes(v);
    auto phase = [&](int shape) {
        auto es = b.tree(n, shape, order > 0); if (order == 2) std::sort(es.begin(), es.end()); for (auto [x, y] : es) T::link(nd[x], nd[y]); int root = b.raw(n); BigTree t(n, es, root);
        for (int q = 0; q < 4000; ++q) {
            int x = b.raw(n), y = b.raw(n); switch (b.raw(5)) {
            case 0: { T::evert(nd[root]); auto c = T::lca(nd[x], nd[y]); CK(c == nd[t.lca(x, y)]); } break;
            case 1: CK(T::is_connected(nd[x], nd[y])); break;
            case 2: { Z z = (i64)b.raw(100); T::set(nd[x], rs_of(z)); a[x] = z; EQ(T::get(nd[x]), rs_of(z)); } break;
            case 3: if (q % 40 == 0) { auto P = t.path(x, y); if constexpr (K >= 1) { RS s; for (int w : P) s = rs_op(s, rs_of(a[w])); EQ(T::prod(nd[x], nd[y]), s); } else { auto p = T::path(nd[x], nd[y]); CK(p.has_value() && p->size() == P.size()); for (size_t i = 0; i < P.size(); ++i) CK((*p)[i] == nd[P[i]]); } } break;
            default: if constexpr (K == 2) if (q % 40 == 0) { A f{ Z((i64)b.raw(P)), Z((i64)b.raw(P)) }; T::apply(nd[x], nd[y], f); for (int w : t.path(x, y)) a[w] = a_app(f, a[w]); }
            }
        }
        return es;
    };
    auto es = phase(s1); b.shuffle(es); size_t keep = b.coin() ? 0 : es.size() / 2; std::vector<std::pair<int, int>> left;
    while (es.size() > keep) { auto [x, y] = es.back(); es.pop_back(); if (b.coin()) std::swap(x, y); T::cut(nd[x], nd[y]); }
    std::vector<int> u(n); std::iota(u.begin(), u.end(), 0); auto root = [&](int x) { while (u[x] != x) x = u[x] = u[u[x]]; return x; }; for (auto [x, y] : es) u[root(x)] = root(y);
    for (int q = 0; q < 2000; ++q) { int x = b.raw(n), y = b.raw(n); EQ(T::is_connected(nd[x], nd[y]), root(x) == root(y)); }
    while (es.size()) { auto [x, y] = es.back(); es.pop_back(); T::cut(nd[x], nd[y]); }
    phase(s2); for (int i = 0; i < n; ++i) EQ(T::get(nd[i]), rs_of(a[i]));
}
PBT(link_cut_tree_large, 2, "every case: more than 2^15 vertices linked, cut and linked again") { lct<L0, 0>(g); }
PBT(link_cut_tree_fold_large, 2, "every case: more than 2^15 vertices linked, cut and linked again") { lct<L1, 1>(g); }
PBT(link_cut_tree_lazy_large, 2, "every case: more than 2^15 vertices linked, cut and linked again") { lct<L2, 2>(g); }
