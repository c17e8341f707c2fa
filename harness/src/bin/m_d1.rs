use hh::trees::*;
type A = S64d<1, u64>;
type B = hibit_tree::DenseTree<u64, 1>;
include!("../inc/multi.rs");
