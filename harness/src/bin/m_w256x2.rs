use hh::trees::*;
type A = S256<2, u64>;
type B = S256d<2, u64>;
include!("../inc/multi.rs");
