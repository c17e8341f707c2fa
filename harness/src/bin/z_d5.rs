use hh::trees::*;
use hibit_tree::*;
type A = DenseTree<u64, 5>;
type B = DenseTree<u64, 5>;
include!("../inc/zoo.rs");
