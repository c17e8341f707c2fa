//! A safe program that would use what it no longer may: an operation while an operand changes.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
trait CountAll { fn count_all(self) -> usize; }
impl<T: LendingIterator> CountAll for T { fn count_all(mut self) -> usize { let mut n = 0; while let Some(_) = LendingIterator::next(&mut self) { n += 1 } n } }
fn main() {
    hh::run::hostile_begin();
    let mut ts = vec![d(9), d(20)];
    let u = multi_union(ts.iter());
    for i in 0..3000 { ts[1].insert(i, Box::new(1)); }
    black_box(u.iter().count_all());
}
