use hh::trees::*;
type A = S64<3, u64>;
type B = S64<3, u64>;
type AD = S64d<3, u64>;
type L = <W64 as Lv<3>>::L;
include!("../inc/threads.rs");
