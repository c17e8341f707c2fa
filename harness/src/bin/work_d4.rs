use hh::trees::*;
type A = S64<4, u64>;
type B = hibit_tree::DenseTree<u64, 4>;
type M = hibit_tree::DenseTree<u64, 4>;
macro_rules! if_materializes { ($($x:tt)*) => { $($x)* } }
include!("../inc/work.rs");
