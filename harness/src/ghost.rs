//! A tree of the user's own: it contains what the tree inside contains, and its masks also show children which turn out to be empty.
//! It watches that operations use its unchecked functions for what exists only.
//! (The hierarchy is declared inexact. The last level's masks are exact, as the trait's iteration requires.)
use crate::check;
use crate::trees::TTree;
use crate::vals::tick;
use hibit_tree::const_utils::ConstInteger;
use hibit_tree::utils::Borrowable;
use hibit_tree::{BitBlock, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes, RegularHibitTree};

#[derive(Default)]
pub struct Ghost<T>(pub T);
impl<T> Borrowable for Ghost<T> { type Borrowed = Self; }

impl<'this, T: RegularHibitTree> HibitTreeTypes<'this> for Ghost<T> {
    type Data = <T as HibitTreeTypes<'this>>::Data;
    type DataUnchecked = <T as HibitTreeTypes<'this>>::Data;
    type Cursor = GCursor<'this, T>;
}
impl<T: RegularHibitTree> HibitTree for Ghost<T> {
    const EXACT_HIERARCHY: bool = false;
    type LevelCount = T::LevelCount;
    type LevelMask = T::LevelMask;
    unsafe fn data(&self, index: usize, level_indices: &[usize]) -> Option<<Self as HibitTreeTypes<'_>>::Data> { tick(); self.0.data(index, level_indices) }
    unsafe fn data_unchecked(&self, index: usize, level_indices: &[usize]) -> <Self as HibitTreeTypes<'_>>::DataUnchecked {
        tick();
        let d = self.0.data(index, level_indices);
        check!(d.is_some(), "an operation asked a tree for its element {index} by data_unchecked, which it does not contain");
        d.unwrap()
    }
}
pub struct GCursor<'src, T: HibitTree> {
    inner: <T as HibitTreeTypes<'src>>::Cursor,
    /// per level: what identifies the path, the mask that was shown (none: the node is not shown by its parent)
    path: [u64; 9],
    shown: [Option<T::LevelMask>; 9],
}
impl<'this, 'src, T: RegularHibitTree> HibitTreeCursorTypes<'this> for GCursor<'src, T> { type Data = <T as HibitTreeTypes<'src>>::Data; }
fn mix(a: u64, b: u64) -> u64 { let x = (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^ x >> 29 }
impl<'src, T: RegularHibitTree> HibitTreeCursor<'src> for GCursor<'src, T> {
    type Src = Ghost<T>;
    fn new(src: &'src Ghost<T>) -> Self { GCursor { inner: HibitTreeCursor::new(&src.0), path: [0; 9], shown: std::array::from_fn(|_| None) } }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Ghost<T>, level_n: N, level_index: usize) -> T::LevelMask {
        tick();
        let n = N::VALUE;
        let mut m = self.inner.select_level_node(&src.0, level_n, level_index);
        let real = !m.is_zero();
        self.path[n] = if n == 0 { 1 } else { mix(self.path[n - 1], level_index as u64 + 1) };
        if n > 0 && !self.shown[n - 1].as_ref().is_some_and(|p| p.get_bit(level_index)) {
            self.shown[n] = None;
            return T::LevelMask::zero();
        }
        if n + 1 < T::LevelCount::VALUE {
            let h = mix(self.path[n], 77);
            // below what is not there at all, chains of any length but few of them
            let extra = if n == 0 { 2 } else if real { h % 3 } else { (h % 4 != 0) as u64 };
            for i in 0..extra { m.set_bit::<true>((h >> (8 + 8 * i)) as usize % T::LevelMask::SIZE); }
        }
        self.shown[n] = Some(m.clone());
        m
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Ghost<T>, level_n: N, level_index: usize) -> T::LevelMask {
        check!(N::VALUE == 0 || self.shown[N::VALUE - 1].as_ref().is_some_and(|p| p.get_bit(level_index)),
            "an operation selected child {level_index} of level {} by select_level_node_unchecked, which the mask does not show", N::VALUE);
        self.select_level_node(src, level_n, level_index)
    }
    unsafe fn data<'a>(&'a self, src: &'src Ghost<T>, level_index: usize) -> Option<<T as HibitTreeTypes<'src>>::Data> {
        tick();
        self.shown[T::LevelCount::VALUE - 1].as_ref()?;
        self.inner.data(&src.0, level_index)
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'src Ghost<T>, level_index: usize) -> <T as HibitTreeTypes<'src>>::Data {
        tick();
        let d = if self.shown[T::LevelCount::VALUE - 1].is_some() { self.inner.data(&src.0, level_index) } else { None };
        check!(d.is_some(), "an operation asked a cursor for the data at {level_index} by data_unchecked, where there is none");
        d.unwrap()
    }
}
impl<V: 'static, T: TTree<V>> TTree<V> for Ghost<T> {
    const DENSE: bool = T::DENSE;
    const REQ_DEFAULT: bool = T::REQ_DEFAULT;
    fn t_insert(&mut self, k: usize, v: V) { self.0.t_insert(k, v) }
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default { self.0.t_goi(k) }
    fn t_remove(&mut self, k: usize) -> Option<V> { self.0.t_remove(k) }
    fn t_kv(&self) -> (&[usize], &[V]) { self.0.t_kv() }
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]) { self.0.t_kv_mut() }
    fn t_get_mut(&mut self, k: usize) -> Option<Option<&mut V>> { self.0.t_get_mut(k) }
    unsafe fn t_get_mut_unchecked(&mut self, k: usize) -> Option<&mut V> { self.0.t_get_mut_unchecked(k) }
    fn t_get_or_default(&self, k: usize) -> Option<&V> where V: Default { self.0.t_get_or_default(k) }
    fn name() -> String { format!("own tree over {}", T::name()) }
}
