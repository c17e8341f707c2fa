use hh::trees::*;
type A = S64<6, u64>;
type B = hibit_tree::DenseTree<u64, 6>;
include!("../inc/pair.rs");
