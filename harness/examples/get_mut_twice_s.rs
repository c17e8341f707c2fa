//! A safe program that would use what it no longer may: two exclusive references to one value.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let mut t = s(9);
    let a = t.get_mut(13).unwrap();
    let b = t.get_mut(13).unwrap();
    *a = Box::new(1); *b = Box::new(2); black_box(**a);
}
