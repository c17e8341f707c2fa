use hh::trees::*;
use hibit_tree::*;
type A = S256<1, u64>;
type B = S256<1, u64>;
include!("../inc/zoo.rs");
