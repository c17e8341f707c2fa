use hh::ghost::Ghost;
use hh::trees::*;
#[allow(unused)] use hibit_tree::*;
type A = Ghost<S256<2, u64>>;
type B = Ghost<S256d<2, u64>>;
include!("../inc/zoo.rs");
