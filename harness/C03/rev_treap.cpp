#include "treap_common.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
PBT(rev_array, 3000, "a point read / sorted search after an edit", 8, 12) { treap_history<suisen::ReversibleDynamicArray<V>, REV>(g); }
PBT(rev_segtree, 3000, "a non-empty range fold after an edit", 8, 13) { treap_history<suisen::ReversibleDynamicSegmentTree<V, v_op, v_e, v_tog>, REV | SEG>(g); }
