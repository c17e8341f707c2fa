//! A safe program that would use what it no longer may: a cursor after its tree is gone.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let t2 = d(9);
    let mut c;
    { let t = d(9); c = <D as HibitTreeTypes>::Cursor::new(&t);
       unsafe { c.select_level_node(&t, ConstUsize::<0>, 0); c.select_level_node(&t, ConstUsize::<1>, 0); c.select_level_node(&t, ConstUsize::<2>, 0); } }
    black_box(unsafe { c.data(&t2, 13) }.map(|x| **x));
}
