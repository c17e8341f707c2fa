use hh::trees::*;
type A = S256d<3, u64>;
type B = S256<3, u64>;
include!("../inc/pair.rs");
