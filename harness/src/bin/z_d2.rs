use hh::trees::*;
use hibit_tree::*;
type A = DenseTree<u64, 2>;
type B = S64d<2, u64>;
include!("../inc/zoo.rs");
