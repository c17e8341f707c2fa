//! A safe program that would use what it no longer may: a value of a tree with defaults while the tree changes.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let mut t: SparseTree<config::width_64::depth_2, Box<u64>, ReqDefault> = Default::default();
    t.insert(1, Box::new(1));
    let a = t.get_or_default(1);
    t.remove(1);
    black_box(**a);
}
