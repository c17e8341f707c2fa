use hh::trees::*;
type A = S256<2, u64>;
type B = S256<2, u64>;
type AD = S256d<2, u64>;
type L = <W256 as Lv<2>>::L;
include!("../inc/threads.rs");
