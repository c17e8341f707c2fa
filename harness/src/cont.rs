//! Object-safe container interface, and all container configurations.
use crate::dynt::Reg;
use crate::repr::Repr;
use crate::trees::{Lv, TTree, W64};
#[cfg(feature = "simd")] use crate::trees::{W128, W256};
use crate::vals::Val;
use hibit_tree::DenseTree;

pub trait Cont<V: Val>: Reg {
    fn insert(&mut self, k: usize, v: V);
    fn goi(&mut self, k: usize) -> &mut V;
    fn remove(&mut self, k: usize) -> Option<V>;
    fn kv(&self) -> (&[usize], &[V]);
    fn kv_mut(&mut self) -> (&[usize], &mut [V]);
    fn get_mut(&mut self, k: usize) -> Option<Option<&mut V>>;
    unsafe fn get_mut_u(&mut self, k: usize) -> Option<&mut V>;
    fn get_or_default(&self, k: usize) -> Option<&V>;
    fn get_ref(&self, k: usize) -> Option<&V>;
    unsafe fn get_ref_u(&self, k: usize) -> &V;
    fn cname(&self) -> String;
    fn is_dense(&self) -> bool;
    fn req_default(&self) -> bool;
    fn reg(&self) -> &dyn Reg;
}
impl<V: Val, T: TTree<V>> Cont<V> for T where for<'a> &'a V: Repr {
    fn insert(&mut self, k: usize, v: V) { self.t_insert(k, v) }
    fn goi(&mut self, k: usize) -> &mut V { self.t_goi(k) }
    fn remove(&mut self, k: usize) -> Option<V> { self.t_remove(k) }
    fn kv(&self) -> (&[usize], &[V]) { self.t_kv() }
    fn kv_mut(&mut self) -> (&[usize], &mut [V]) { self.t_kv_mut() }
    fn get_mut(&mut self, k: usize) -> Option<Option<&mut V>> { self.t_get_mut(k) }
    unsafe fn get_mut_u(&mut self, k: usize) -> Option<&mut V> { self.t_get_mut_unchecked(k) }
    fn get_or_default(&self, k: usize) -> Option<&V> { self.t_get_or_default(k) }
    fn get_ref(&self, k: usize) -> Option<&V> { hibit_tree::HibitTree::get(self, k) }
    unsafe fn get_ref_u(&self, k: usize) -> &V { hibit_tree::HibitTree::get_unchecked(self, k) }
    fn cname(&self) -> String { format!("{} of {}", T::name(), V::NAME) }
    fn is_dense(&self) -> bool { T::DENSE }
    fn req_default(&self) -> bool { T::REQ_DEFAULT }
    fn reg(&self) -> &dyn Reg { self }
}

/// A family of configurations. Families are compiled in separate binaries, in parallel.
pub trait Part: 'static {
    /// all configurations of the family
    const N: usize;
    fn make<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr;
    /// a few, for value types that need not meet all of them
    const SOME: usize;
    fn some<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr;
}
pub struct PDense;
impl Part for PDense {
    const N: usize = 9;
    fn make<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr {
        macro_rules! go { ($($n:literal)*) => { match i % 9 + 1 { $( $n => Box::new(DenseTree::<V, $n>::default()), )* _ => unreachable!() } } }
        go!(1 2 3 4 5 6 7 8 9)
    }
    const SOME: usize = 3;
    fn some<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr {
        match i % 3 {
            0 => Box::new(DenseTree::<V, 1>::default()),
            1 => Box::new(DenseTree::<V, 2>::default()),
            _ => Box::new(DenseTree::<V, 4>::default()),
        }
    }
}
macro_rules! sparse_part { ($p:ident $w:ident: $a:literal $b:literal $c:literal $d:literal) => {
    pub struct $p;
    impl Part for $p {
        const N: usize = 16;
        fn make<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr {
            macro_rules! go { ($$($$n:literal)*) => { match i % 16 {
                $$( x if x == $$n - 1 => Box::new(<<$w as Lv<$$n>>::T<V>>::default()) as Box<dyn Cont<V>>,
                   x if x == $$n + 7 => Box::new(<<$w as Lv<$$n>>::TD<V>>::default()), )* _ => unreachable!() } } }
            go!(1 2 3 4 5 6 7 8)
        }
        const SOME: usize = 4;
        fn some<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: Repr {
            match i % 4 {
                0 => Box::new(<<$w as Lv<$a>>::T<V>>::default()),
                1 => Box::new(<<$w as Lv<$b>>::T<V>>::default()),
                2 => Box::new(<<$w as Lv<$c>>::TD<V>>::default()),
                _ => Box::new(<<$w as Lv<$d>>::TD<V>>::default()),
            }
        }
    }
} }
sparse_part!(PS64 W64: 1 3 2 5);
#[cfg(feature = "simd")] sparse_part!(PS128 W128: 2 4 1 3);
#[cfg(feature = "simd")] sparse_part!(PS256 W256: 1 3 2 4);
