use hh::trees::*;
type A = S64<1, u64>;
type B = S64<1, u64>;
type AD = S64d<1, u64>;
type L = <W64 as Lv<1>>::L;
include!("../inc/threads.rs");
