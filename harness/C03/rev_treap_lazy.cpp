#include "treap_common.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
PBT(rev_lazy, 3000, "a non-empty range fold after an edit", 8, 12) { treap_history<suisen::ReversibleDynamicLazySegmentTree<V, v_op, v_e, v_tog, A, v_map, a_comp, a_id>, REV | SEG | LAZY>(g); }
PBT(rev_dual, 3000, "a point read / sorted search after an edit", 8, 15) { treap_history<suisen::ReversibleDynamicDualSegmentTree<V, A, v_map2, a_comp, a_id>, REV | DUAL>(g); }
