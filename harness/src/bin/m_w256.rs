use hh::trees::*;
type A = S256d<1, u64>;
type B = S256<1, u64>;
include!("../inc/multi.rs");
