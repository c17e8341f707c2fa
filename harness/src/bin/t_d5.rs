use hh::trees::*;
const D: usize = 5;
type A = hibit_tree::DenseTree<u64, 5>;
type B = S64<5, u64>;
include!("../inc/mat.rs");
