use hh::trees::*;
const D: usize = 7;
type A = hibit_tree::DenseTree<u64, 7>;
type B = S64<7, u64>;
include!("../inc/mat.rs");
