use hh::trees::*;
type A = S128<2, u64>;
type B = S128<2, u64>;
type AD = S128d<2, u64>;
type L = <W128 as Lv<2>>::L;
include!("../inc/threads.rs");
