#include "rbt_common.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
namespace B = suisen::bbst;
PBT(plain, 2500, "a read after an edit", 2, 12) { rbt_history<B::RedBlackTreeNode<V>, V, 0>(g); }
PBT(segtree, 2500, "a non-empty fold after an edit", 2, 12) { rbt_history<B::segtree::RedBlackTreeNode<V, v_op, v_e>, V, SEG>(g); }
PBT(lazy, 2500, "a non-empty fold after an edit", 4, 12) { rbt_history<B::lazy_segtree::RedBlackTreeNode<V, v_op, v_e, A, v_map, a_comp, a_id>, V, SEG | LAZY>(g); }
PBT(rev_lazy, 2500, "a non-empty fold after an edit", 2, 12) { rbt_history<B::reversible_lazy_segtree::RedBlackTreeNode<C, c_op, c_e, A, c_map, a_comp, a_id>, C, SEG | LAZY | REV>(g); }
