//! Object-safe faces of trees, so that the oracles are compiled once and not per tree type.
use crate::repr::{r, Repr, R};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;
use hibit_tree::{
    BitBlock, HibitTree, HibitTreeCursor, HibitTreeTypes, Index, Iter, MultiHibitTree,
    MultiHibitTreeTypes, RegularHibitTree,
};

/// Words of a mask, read without the bit operations under test.
pub fn words<M: BitBlock>(m: &M) -> Vec<u64> { m.as_array().as_ref().to_vec() }

/// Select a node, through the type-level level number.
/// # Safety
/// Contract of the cursor: levels top to bottom; `unchecked` only for existing nodes.
#[inline(never)]
pub unsafe fn select<'a, T: HibitTree>(cur: &mut <T as HibitTreeTypes<'a>>::Cursor, t: &'a T, l: usize, idx: usize, unchecked: bool) -> Vec<u64> {
    macro_rules! go { ($($n:literal)*) => { match l { $(
        $n => {
            let m = if unchecked { cur.select_level_node_unchecked(t, ConstUsize::<$n>, idx) }
                else { cur.select_level_node(t, ConstUsize::<$n>, idx) };
            words(&m)
        } )* _ => unreachable!() } } }
    match <T as HibitTree>::LevelCount::VALUE {
        1 => go!(0),
        2 => go!(0 1),
        3 => go!(0 1 2),
        4 => go!(0 1 2 3),
        _ => go!(0 1 2 3 4 5 6 7 8),
    }
}

pub trait Shape {
    fn w(&self) -> usize;
    fn d(&self) -> usize;
    fn exact(&self) -> bool;
    /// index_range().end as the tree reports it
    fn range(&self) -> usize;
}
impl<T: HibitTree> Shape for T {
    fn w(&self) -> usize { <T as HibitTree>::LevelMask::SIZE }
    fn d(&self) -> usize { <T as HibitTree>::LevelCount::VALUE }
    fn exact(&self) -> bool { T::EXACT_HIERARCHY }
    fn range(&self) -> usize { T::index_range().end }
}

pub trait Cur {
    unsafe fn select(&mut self, l: usize, idx: usize, unchecked: bool) -> Vec<u64>;
}
/// Cursor of a regular tree.
pub trait RegCur: Cur {
    unsafe fn data(&self, i: usize) -> Option<R>;
    unsafe fn data_u(&self, i: usize) -> R;
}
pub struct CurW<'a, T: HibitTree>(pub <T as HibitTreeTypes<'a>>::Cursor, pub &'a T);
impl<'a, T: HibitTree> Cur for CurW<'a, T> {
    unsafe fn select(&mut self, l: usize, idx: usize, unchecked: bool) -> Vec<u64> { select(&mut self.0, self.1, l, idx, unchecked) }
}
impl<'a, T: RegularHibitTree> RegCur for CurW<'a, T>
where for<'x> <T as HibitTreeTypes<'x>>::Data: Repr
{
    unsafe fn data(&self, i: usize) -> Option<R> { self.0.data(self.1, i).map(|d| r(&d)) }
    unsafe fn data_u(&self, i: usize) -> R { r(&self.0.data_unchecked(self.1, i)) }
}
/// One iterator, advanced through either of its interfaces.
pub trait Both {
    fn next(&mut self, lending: bool) -> Option<(usize, R)>;
    fn hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<(usize, R)>;
    fn fold(self: Box<Self>) -> Vec<(usize, R)>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<(usize, R)>;
}
struct LendW<'a, T: HibitTree>(Iter<'a, T>);
impl<'a, T: RegularHibitTree> Both for LendW<'a, T>
where for<'x> <T as HibitTreeTypes<'x>>::Data: Repr
{
    fn next(&mut self, lending: bool) -> Option<(usize, R)> {
        if lending { LendingIterator::next(&mut self.0).map(|(k, d)| (k, r(&d))) }
        else { Iterator::next(&mut self.0).map(|(k, d)| (k, r(&d))) }
    }
    fn hint(&self) -> (usize, Option<usize>) { Iterator::size_hint(&self.0) }
    fn nth(&mut self, n: usize) -> Option<(usize, R)> { Iterator::nth(&mut self.0, n).map(|(k, d)| (k, r(&d))) }
    fn fold(self: Box<Self>) -> Vec<(usize, R)> { Iterator::fold(self.0, vec![], |mut v, (k, d)| { v.push((k, r(&d))); v }) }
    fn count(self: Box<Self>) -> usize { Iterator::count(self.0) }
    fn last(self: Box<Self>) -> Option<(usize, R)> { Iterator::last(self.0).map(|(k, d)| (k, r(&d))) }
}

/// Any regular tree.
pub trait Reg: Shape {
    fn get(&self, k: usize) -> Option<R>;
    /// through a checked `Index`
    fn get_ix(&self, k: usize) -> Option<R>;
    unsafe fn get_u(&self, k: usize) -> R;
    fn iter<'a>(&'a self) -> Box<dyn Both + 'a>;
    fn cursor<'a>(&'a self) -> Box<dyn RegCur + 'a>;
}
impl<T: RegularHibitTree> Reg for T
where for<'x> <T as HibitTreeTypes<'x>>::Data: Repr
{
    fn get(&self, k: usize) -> Option<R> { HibitTree::get(self, k).map(|d| r(&d)) }
    fn get_ix(&self, k: usize) -> Option<R> {
        let i: Index<<T as HibitTree>::LevelMask, <T as HibitTree>::LevelCount> = Index::from(k);
        let j = i;
        crate::check!(usize::from(i) == k, "Index::from({k}) converts back to {}", usize::from(i));
        HibitTree::get(self, j).map(|d| r(&d))
    }
    unsafe fn get_u(&self, k: usize) -> R { r(&HibitTree::get_unchecked(self, k)) }
    fn iter<'a>(&'a self) -> Box<dyn Both + 'a> { Box::new(LendW(HibitTree::iter(self))) }
    fn cursor<'a>(&'a self) -> Box<dyn RegCur + 'a> { Box::new(CurW::<'a, T>(<T as HibitTreeTypes<'a>>::Cursor::new(self), self)) }
}
/// What was seen of one value sequence of a multi_* tree.
#[derive(Debug, Default, Clone)]
pub struct Drained { pub hints: Vec<(usize, Option<usize>)>, pub vals: Vec<R>, pub again: bool, pub overrun: bool }
fn drained<I: Iterator>(mut it: I, cap: usize) -> Drained where I::Item: Repr {
    let mut d = Drained::default();
    loop {
        d.hints.push(it.size_hint());
        match it.next() { Some(v) => d.vals.push(r(&v)), None => break }
        if d.vals.len() > cap { d.overrun = true; return d; }
    }
    d.hints.push(it.size_hint());
    d.again = it.next().is_some();
    d
}
fn folded<I: Iterator>(mut it: I, skip: usize) -> Vec<R> where I::Item: Repr {
    let mut v = vec![];
    for _ in 0..skip { match it.next() { Some(x) => v.push(r(&x)), None => return v } }
    it.fold(v, |mut a, x| { a.push(r(&x)); a })
}
pub const CAP: usize = 64;
/// One access, drained in some way: 0 = stepwise, n+1 = n steps, then folded; from WAYS on, one of the other
/// methods every iterator has, after some steps.
#[derive(Debug, Clone)]
pub enum Seen { Steps(Drained), Folded(Vec<R>), Nth(Vec<R>, usize, Option<R>, Vec<R>), Last(Vec<R>, Option<R>), Count(Vec<R>, usize), Each(Vec<R>) }
pub const FOLDS: usize = 4;
pub const WAYS: usize = FOLDS + 24;
fn see<I: Iterator>(mut it: I, how: usize) -> Seen where I::Item: Repr {
    if how == 0 { return Seen::Steps(drained(it, CAP)) }
    if how < FOLDS { return Seen::Folded(folded(it, how - 1)) }
    let (op, n) = ((how - FOLDS) % 6, (how - FOLDS) / 6);
    let mut head = vec![];
    for _ in 0..n { if let Some(x) = it.next() { head.push(r(&x)) } }
    match op {
        0 => Seen::Last(head, it.last().map(|x| r(&x))),
        1 => Seen::Count(head, it.count()),
        2 => { let mut e = head; it.for_each(|x| e.push(r(&x))); Seen::Each(e) }
        n => {
            let g = it.nth(n - 3).map(|x| r(&x));
            // only while there may be more: what follows an end is not asked for
            let tail = if g.is_some() { it.take(CAP).map(|x| r(&x)).collect() } else { vec![] };
            Seen::Nth(head, n - 3, g, tail)
        }
    }
}

pub trait MCur: Cur {
    unsafe fn data(&self, i: usize, how: usize) -> Option<Seen>;
    unsafe fn data_u(&self, i: usize, how: usize) -> Seen;
}
impl<'a, T: MultiHibitTree> MCur for CurW<'a, T>
where for<'x> <T as MultiHibitTreeTypes<'x>>::IterItem: Repr
{
    unsafe fn data(&self, i: usize, how: usize) -> Option<Seen> { self.0.data(self.1, i).map(|d| see(d, how)) }
    unsafe fn data_u(&self, i: usize, how: usize) -> Seen { see(self.0.data_unchecked(self.1, i), how) }
}
pub trait MLend { fn next(&mut self, how: usize) -> Option<(usize, Seen)>; }
impl<'a, T: MultiHibitTree> MLend for LendW<'a, T>
where for<'x> <T as MultiHibitTreeTypes<'x>>::IterItem: Repr
{
    fn next(&mut self, how: usize) -> Option<(usize, Seen)> { LendingIterator::next(&mut self.0).map(|(k, d)| (k, see(d, how))) }
}
pub trait Multi: Shape {
    fn get(&self, k: usize, how: usize) -> Option<Seen>;
    unsafe fn get_u(&self, k: usize, how: usize) -> Seen;
    fn lend<'a>(&'a self) -> Box<dyn MLend + 'a>;
    fn cursor<'a>(&'a self) -> Box<dyn MCur + 'a>;
}
pub struct MW<T>(pub T);
impl<T: MultiHibitTree> Shape for MW<T> {
    fn w(&self) -> usize { self.0.w() }
    fn d(&self) -> usize { self.0.d() }
    fn exact(&self) -> bool { self.0.exact() }
    fn range(&self) -> usize { self.0.range() }
}
impl<T: MultiHibitTree> Multi for MW<T>
where for<'x> <T as MultiHibitTreeTypes<'x>>::IterItem: Repr
{
    fn get(&self, k: usize, how: usize) -> Option<Seen> { HibitTree::get(&self.0, k).map(|d| see(d, how)) }
    unsafe fn get_u(&self, k: usize, how: usize) -> Seen { see(HibitTree::get_unchecked(&self.0, k), how) }
    fn lend<'a>(&'a self) -> Box<dyn MLend + 'a> { Box::new(LendW(HibitTree::iter(&self.0))) }
    fn cursor<'a>(&'a self) -> Box<dyn MCur + 'a> { Box::new(CurW::<'a, T>(<T as HibitTreeTypes<'a>>::Cursor::new(&self.0), &self.0)) }
}
