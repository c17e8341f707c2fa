use hh::trees::*;
const D: usize = 8;
type A = hibit_tree::DenseTree<u64, 8>;
type B = S64d<8, u64>;
include!("../inc/mat.rs");
