use hh::trees::*;
type A = S256<1, u64>;
type B = S256d<1, u64>;
include!("../inc/pair.rs");
