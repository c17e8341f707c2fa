//! One interface over both containers.
use hibit_tree::config::SparseTreeLevels;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::{
    BitBlock, DenseTree, HibitTree, HibitTreeTypes, RegularHibitTree, ReqDefault, SparseTree,
};

pub trait TTree<V: 'static>:
    RegularHibitTree + Default + 'static
    + for<'a> HibitTreeTypes<'a, Data = &'a V, DataUnchecked = &'a V>
{
    const DENSE: bool;
    const REQ_DEFAULT: bool;
    fn t_insert(&mut self, k: usize, v: V);
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default;
    fn t_remove(&mut self, k: usize) -> Option<V>;
    fn t_kv(&self) -> (&[usize], &[V]);
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]);
    /// outer None: operation not offered
    fn t_get_mut(&mut self, k: usize) -> Option<Option<&mut V>>;
    unsafe fn t_get_mut_unchecked(&mut self, k: usize) -> Option<&mut V>;
    fn t_get_or_default(&self, k: usize) -> Option<&V> where V: Default;
    fn width() -> usize { <Self as HibitTree>::LevelMask::SIZE }
    fn depth() -> usize { <Self as HibitTree>::LevelCount::VALUE }
    fn name() -> String {
        format!("{}{}x{}{}", if Self::DENSE { "Dense" } else { "Sparse" }, Self::width(), Self::depth(),
            if Self::REQ_DEFAULT { "/reqdef" } else { "" })
    }
}

impl<V: 'static, const D: usize> TTree<V> for DenseTree<V, D>
where ConstUsize<D>: ConstInteger
{
    const DENSE: bool = true;
    const REQ_DEFAULT: bool = false;
    fn t_insert(&mut self, k: usize, v: V) { self.insert(k, v) }
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default { self.get_or_insert(k) }
    fn t_remove(&mut self, k: usize) -> Option<V> { self.remove(k) }
    fn t_kv(&self) -> (&[usize], &[V]) { self.key_values() }
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]) { let (k, v) = self.key_values_mut(); (k, v) }
    fn t_get_mut(&mut self, _: usize) -> Option<Option<&mut V>> { None }
    unsafe fn t_get_mut_unchecked(&mut self, _: usize) -> Option<&mut V> { None }
    fn t_get_or_default(&self, _: usize) -> Option<&V> where V: Default { None }
}

impl<V: 'static, L: SparseTreeLevels + 'static> TTree<V> for SparseTree<L, V, ReqDefault<false>> {
    const DENSE: bool = false;
    const REQ_DEFAULT: bool = false;
    fn t_insert(&mut self, k: usize, v: V) { self.insert(k, v) }
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default { self.get_or_insert(k) }
    fn t_remove(&mut self, k: usize) -> Option<V> { self.remove(k) }
    fn t_kv(&self) -> (&[usize], &[V]) { self.key_values() }
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]) { let (k, v) = self.key_values_mut(); (k, v) }
    fn t_get_mut(&mut self, k: usize) -> Option<Option<&mut V>> { Some(self.get_mut(k)) }
    unsafe fn t_get_mut_unchecked(&mut self, k: usize) -> Option<&mut V> { Some(self.get_mut_unchecked(k)) }
    fn t_get_or_default(&self, _: usize) -> Option<&V> where V: Default { None }
}

impl<V: Default + 'static, L: SparseTreeLevels + 'static> TTree<V> for SparseTree<L, V, ReqDefault<true>> {
    const DENSE: bool = false;
    const REQ_DEFAULT: bool = true;
    fn t_insert(&mut self, k: usize, v: V) { self.insert(k, v) }
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default { self.get_or_insert(k) }
    fn t_remove(&mut self, k: usize) -> Option<V> { self.remove(k) }
    fn t_kv(&self) -> (&[usize], &[V]) { self.key_values() }
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]) { let (k, v) = self.key_values_mut(); (k, v) }
    fn t_get_mut(&mut self, k: usize) -> Option<Option<&mut V>> { Some(self.get_mut(k)) }
    unsafe fn t_get_mut_unchecked(&mut self, k: usize) -> Option<&mut V> { Some(self.get_mut_unchecked(k)) }
    fn t_get_or_default(&self, k: usize) -> Option<&V> where V: Default { Some(self.get_or_default(k)) }
}

pub type S64<const D: usize, V> = <W64 as Lv<D>>::T<V>;
pub type S64d<const D: usize, V> = <W64 as Lv<D>>::TD<V>;
#[cfg(feature = "simd")] pub type S128<const D: usize, V> = <W128 as Lv<D>>::T<V>;
#[cfg(feature = "simd")] pub type S128d<const D: usize, V> = <W128 as Lv<D>>::TD<V>;
#[cfg(feature = "simd")] pub type S256<const D: usize, V> = <W256 as Lv<D>>::T<V>;
#[cfg(feature = "simd")] pub type S256d<const D: usize, V> = <W256 as Lv<D>>::TD<V>;

pub struct W64;
pub struct W128;
pub struct W256;
pub trait Lv<const D: usize> { type T<V>; type TD<V>; type L: SparseTreeLevels; }
macro_rules! lv {
    ($w:ident $m:ident: $($d:literal $n:ident),*) => { $(
        impl Lv<$d> for $w {
            type T<V> = SparseTree<hibit_tree::config::$m::$n, V, ReqDefault<false>>;
            type TD<V> = SparseTree<hibit_tree::config::$m::$n, V, ReqDefault<true>>;
            type L = hibit_tree::config::$m::$n;
        }
    )* };
}
lv!(W64 width_64: 1 depth_1, 2 depth_2, 3 depth_3, 4 depth_4, 5 depth_5, 6 depth_6, 7 depth_7, 8 depth_8);
#[cfg(feature = "simd")]
lv!(W128 width_128: 1 depth_1, 2 depth_2, 3 depth_3, 4 depth_4, 5 depth_5, 6 depth_6, 7 depth_7, 8 depth_8);
#[cfg(feature = "simd")]
lv!(W256 width_256: 1 depth_1, 2 depth_2, 3 depth_3, 4 depth_4, 5 depth_5, 6 depth_6, 7 depth_7, 8 depth_8);

/// Range end (saturating), as usize.
pub fn range_end(w: usize, d: usize) -> usize { w.saturating_pow(d as u32) }

/// Level digits of an index, top first.
pub fn digits(mut k: usize, w: usize, d: usize) -> Vec<usize> {
    let b = w.trailing_zeros();
    let mut v = vec![0; d];
    for i in (0..d).rev() { v[i] = k & (w - 1); k = k.checked_shr(b).unwrap_or(0); }
    v
}
pub fn undigits(v: &[usize], w: usize) -> usize {
    let b = w.trailing_zeros();
    let mut k = 0usize;
    for &x in v { k = (k << b) | x; }
    k
}
