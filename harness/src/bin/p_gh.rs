use hh::ghost::Ghost;
use hh::trees::*;
type A = Ghost<hibit_tree::DenseTree<u64, 4>>;
type B = Ghost<S64<4, u64>>;
include!("../inc/pair.rs");
