use hh::trees::*;
const D: usize = 9;
type A = hibit_tree::DenseTree<u64, 9>;
type B = hibit_tree::DenseTree<u64, 9>;
include!("../inc/mat.rs");
