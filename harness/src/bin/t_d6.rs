use hh::trees::*;
const D: usize = 6;
type A = hibit_tree::DenseTree<u64, 6>;
type B = S64d<6, u64>;
include!("../inc/mat.rs");
