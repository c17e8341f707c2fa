use hh::trees::*;
const D: usize = 1;
type A = hibit_tree::DenseTree<u64, 1>;
type B = S64<1, u64>;
include!("../inc/mat.rs");
