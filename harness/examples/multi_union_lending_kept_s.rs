//! A safe program that would use what it no longer may: the data of a lending iteration after its next step.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let ts = vec![s(9), s(20)];
    let u = multi_union(ts.iter());
    let mut it = u.iter();
    let a = LendingIterator::next(&mut it).unwrap();
    while let Some(b) = LendingIterator::next(&mut it) { black_box(b.0); }
    black_box(a.1.map(|v| **v).sum::<u64>());
}
