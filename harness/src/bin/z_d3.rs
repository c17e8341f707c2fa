use hh::trees::*;
use hibit_tree::*;
type A = S64<3, u64>;
type B = DenseTree<u64, 3>;
include!("../inc/zoo.rs");
