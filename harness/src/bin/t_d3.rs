use hh::trees::*;
const D: usize = 3;
type A = hibit_tree::DenseTree<u64, 3>;
type B = S64<3, u64>;
include!("../inc/mat.rs");
