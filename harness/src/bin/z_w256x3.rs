use hh::trees::*;
use hibit_tree::*;
type A = S256d<3, u64>;
type B = S256d<3, u64>;
include!("../inc/zoo.rs");
