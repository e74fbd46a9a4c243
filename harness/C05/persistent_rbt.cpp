#include "../C04/rbt_common.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
namespace B = suisen::bbst;
PBT(plain, 1500, "a read after an edit", 8, 12) { rbt_history<B::PersistentRedBlackTreeNode<V>, V, PERS>(g); }
PBT(segtree, 1500, "a non-empty fold after an edit", 8, 12) { rbt_history<B::segtree::PersistentRedBlackTreeNode<V, v_op, v_e>, V, PERS | SEG>(g); }
PBT(lazy, 1500, "a non-empty fold after an edit", 8, 12) { rbt_history<B::lazy_segtree::PersistentRedBlackTreeNode<V, v_op, v_e, A, v_map, a_comp, a_id>, V, PERS | SEG | LAZY>(g); }
PBT(rev_lazy, 1500, "a non-empty fold after an edit", 8, 12) { rbt_history<B::reversible_lazy_segtree::PersistentRedBlackTreeNode<C, c_op, c_e, A, c_map, a_comp, a_id>, C, PERS | SEG | LAZY | REV>(g); }
