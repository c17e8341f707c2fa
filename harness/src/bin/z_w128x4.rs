use hh::trees::*;
use hibit_tree::*;
type A = S128d<4, u64>;
type B = S128<4, u64>;
include!("../inc/zoo.rs");
