use hh::trees::*;
type A = hibit_tree::DenseTree<u64, 1>;
type B = S64d<1, u64>;
include!("../inc/pair.rs");
