use hh::trees::*;
type A = hibit_tree::DenseTree<u64, 6>;
type B = S64<6, u64>;
type M = hibit_tree::DenseTree<u64, 6>;
macro_rules! if_materializes { ($($x:tt)*) => { $($x)* } }
include!("../inc/work.rs");
