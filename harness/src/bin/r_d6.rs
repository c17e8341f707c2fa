use hh::trees::*;
type A = S64<6, u64>;
type B = S64<6, u64>;
type AD = S64d<6, u64>;
type L = <W64 as Lv<6>>::L;
include!("../inc/threads.rs");
