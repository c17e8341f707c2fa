use hh::trees::*;
const D: usize = 2;
type A = hibit_tree::DenseTree<u64, 2>;
type B = S64d<2, u64>;
include!("../inc/mat.rs");
