//! Ownership of lazy operations.
macro_rules! shape {
    ($d:tt $m:ident: $A:ty, $B:ty, $mat:ident, $M:ty) => { #[allow(unused_imports, unused_macros, dead_code)] mod $m {
        use hh::trees::*;
        use hibit_tree::DenseTree;
        type A = $A;
        type B = $B;
        type M = $M;
        macro_rules! materialized { ($d($d x:tt)*) => { $mat!($d($d x)*) } }
        include!("../inc/lazyown.rs");
    } };
}
shape!($ d1: S64<1, Tracked>, DenseTree<Tracked, 1>, mat64, DenseTree<R, 1>);
shape!($ d2: DenseTree<Tracked, 2>, S64d<2, Tracked>, mat64, DenseTree<R, 2>);
shape!($ d4: S64<4, Tracked>, DenseTree<Tracked, 4>, mat64, DenseTree<R, 4>);
shape!($ dd3: DenseTree<Tracked, 3>, DenseTree<Tracked, 3>, mat64, DenseTree<R, 3>);
#[cfg(feature = "simd")] shape!($ w128: S128<2, Tracked>, S128d<2, Tracked>, mat_none, ());
#[cfg(feature = "simd")] shape!($ w256: S256d<3, Tracked>, S256<3, Tracked>, mat_none, ());
#[cfg(feature = "simd")] shape!($ w256x1: S256<1, Tracked>, S256d<1, Tracked>, mat_none, ());
fn main() {
    hh::run::main(&[
        ("own_lazy_d1", 22, d1::own), ("own_lazy_d2", 22, d2::own), ("own_lazy_d4", 22, d4::own), ("own_lazy_dd3", 22, dd3::own),
        #[cfg(feature = "simd")] ("own_lazy_w128", 22, w128::own),
        #[cfg(feature = "simd")] ("own_lazy_w256", 22, w256::own),
        #[cfg(feature = "simd")] ("own_lazy_w256x1", 22, w256x1::own),
    ])
}
