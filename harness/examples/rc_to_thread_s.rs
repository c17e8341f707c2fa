//! A safe program that would use what it no longer may: a tree of values that must stay in their thread.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let r = std::rc::Rc::new(0u64);
    let mut t: SparseTree<config::width_64::depth_2, std::rc::Rc<u64>> = Default::default();
    t.insert(1, r.clone());
    let h = std::thread::spawn(move || { for _ in 0..100 { black_box(t.get(1).unwrap().clone()); } });
    for _ in 0..100 { black_box(r.clone()); }
    h.join().unwrap();
}
