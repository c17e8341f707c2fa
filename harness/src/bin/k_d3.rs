use hh::trees::*;
type A<V> = hibit_tree::DenseTree<V, 3>;
type B<V> = S64<3, V>;
include!("../inc/kinds.rs");
