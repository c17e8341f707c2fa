use hh::trees::*;
const D: usize = 4;
type A = hibit_tree::DenseTree<u64, 4>;
type B = S64d<4, u64>;
include!("../inc/mat.rs");
