use hh::trees::*;
type A = S256<3, u64>;
type B = S256d<3, u64>;
macro_rules! if_materializes { ($($x:tt)*) => { fn mat_work(c: &mut Case) { c.trivial() } } }
include!("../inc/work.rs");
