use hh::ghost::Ghost;
use hh::trees::*;
#[allow(unused)] use hibit_tree::*;
type A = Ghost<S64<4, u64>>;
type B = DenseTree<u64, 4>;
include!("../inc/zoo.rs");
