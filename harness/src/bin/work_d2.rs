use hh::trees::*;
type A = hibit_tree::DenseTree<u64, 2>;
type B = S64<2, u64>;
type M = hibit_tree::DenseTree<u64, 2>;
macro_rules! if_materializes { ($($x:tt)*) => { $($x)* } }
include!("../inc/work.rs");
