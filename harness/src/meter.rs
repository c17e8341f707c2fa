//! A tree of the user's own that counts how often it is asked for nodes and elements.
use crate::trees::TTree;
use hibit_tree::const_utils::ConstInteger;
use hibit_tree::utils::Borrowable;
use hibit_tree::{HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes, RegularHibitTree};
use std::cell::Cell;

#[derive(Default)]
pub struct Meter<T> { pub t: T, pub nodes: Cell<u64>, pub data: Cell<u64> }
impl<T> Meter<T> {
    pub fn reset(&self) { self.nodes.set(0); self.data.set(0); }
    fn node(&self) { self.nodes.set(self.nodes.get() + 1) }
    fn datum(&self) { self.data.set(self.data.get() + 1) }
}
impl<T> Borrowable for Meter<T> { type Borrowed = Self; }
impl<'this, T: RegularHibitTree> HibitTreeTypes<'this> for Meter<T> {
    type Data = <T as HibitTreeTypes<'this>>::Data;
    type DataUnchecked = <T as HibitTreeTypes<'this>>::DataUnchecked;
    type Cursor = MCursor<'this, T>;
}
impl<T: RegularHibitTree> HibitTree for Meter<T> {
    const EXACT_HIERARCHY: bool = T::EXACT_HIERARCHY;
    type LevelCount = T::LevelCount;
    type LevelMask = T::LevelMask;
    unsafe fn data(&self, index: usize, level_indices: &[usize]) -> Option<<Self as HibitTreeTypes<'_>>::Data> { self.datum(); self.t.data(index, level_indices) }
    unsafe fn data_unchecked(&self, index: usize, level_indices: &[usize]) -> <Self as HibitTreeTypes<'_>>::DataUnchecked { self.datum(); self.t.data_unchecked(index, level_indices) }
}
pub struct MCursor<'src, T: HibitTree>(<T as HibitTreeTypes<'src>>::Cursor);
impl<'this, 'src, T: RegularHibitTree> HibitTreeCursorTypes<'this> for MCursor<'src, T> { type Data = <T as HibitTreeTypes<'src>>::Data; }
impl<'src, T: RegularHibitTree> HibitTreeCursor<'src> for MCursor<'src, T> {
    type Src = Meter<T>;
    fn new(src: &'src Meter<T>) -> Self { MCursor(HibitTreeCursor::new(&src.t)) }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Meter<T>, n: N, i: usize) -> T::LevelMask { src.node(); self.0.select_level_node(&src.t, n, i) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Meter<T>, n: N, i: usize) -> T::LevelMask { src.node(); self.0.select_level_node_unchecked(&src.t, n, i) }
    unsafe fn data<'a>(&'a self, src: &'src Meter<T>, i: usize) -> Option<<T as HibitTreeTypes<'src>>::Data> { src.datum(); self.0.data(&src.t, i) }
    unsafe fn data_unchecked<'a>(&'a self, src: &'src Meter<T>, i: usize) -> <T as HibitTreeTypes<'src>>::Data { src.datum(); self.0.data_unchecked(&src.t, i) }
}
impl<V: 'static, T: TTree<V>> TTree<V> for Meter<T> {
    const DENSE: bool = T::DENSE;
    const REQ_DEFAULT: bool = T::REQ_DEFAULT;
    fn t_insert(&mut self, k: usize, v: V) { self.t.t_insert(k, v) }
    fn t_goi(&mut self, k: usize) -> &mut V where V: Default { self.t.t_goi(k) }
    fn t_remove(&mut self, k: usize) -> Option<V> { self.t.t_remove(k) }
    fn t_kv(&self) -> (&[usize], &[V]) { self.t.t_kv() }
    fn t_kv_mut(&mut self) -> (&[usize], &mut [V]) { self.t.t_kv_mut() }
    fn t_get_mut(&mut self, k: usize) -> Option<Option<&mut V>> { self.t.t_get_mut(k) }
    unsafe fn t_get_mut_unchecked(&mut self, k: usize) -> Option<&mut V> { self.t.t_get_mut_unchecked(k) }
    fn t_get_or_default(&self, k: usize) -> Option<&V> where V: Default { self.t.t_get_or_default(k) }
    fn name() -> String { format!("metered {}", T::name()) }
}
