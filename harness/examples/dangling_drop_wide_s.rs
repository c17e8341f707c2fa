//! A safe program that would use what it no longer may: the destructor of an element reads what is already gone.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
struct Speak<'a>(&'a String);
impl<'a> Drop for Speak<'a> { fn drop(&mut self) { black_box(self.0.len()); } }
fn main() {
    hh::run::hostile_begin();
    let mut t: SparseTree<config::width_64::depth_2, Option<Box<Speak>>, ReqDefault> = Default::default();
    let s = String::from("gone");
    t.insert(1, Some(Box::new(Speak(&s))));
}
