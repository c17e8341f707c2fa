use hh::trees::*;
type A = S128d<2, u64>;
type B = S128<2, u64>;
include!("../inc/multi.rs");
