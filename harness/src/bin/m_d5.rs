use hh::trees::*;
type A = S64<5, u64>;
type B = hibit_tree::DenseTree<u64, 5>;
include!("../inc/multi.rs");
