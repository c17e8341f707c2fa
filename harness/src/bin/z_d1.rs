use hh::trees::*;
use hibit_tree::*;
type A = DenseTree<u64, 1>;
type B = S64<1, u64>;
include!("../inc/zoo.rs");
