use hh::trees::*;
use hibit_tree::*;
type A = S128<2, u64>;
type B = S128d<2, u64>;
include!("../inc/zoo.rs");
