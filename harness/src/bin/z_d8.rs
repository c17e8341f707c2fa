use hh::trees::*;
use hibit_tree::*;
type A = S64d<8, u64>;
type B = DenseTree<u64, 8>;
include!("../inc/zoo.rs");
