//! A safe program that would use what it no longer may: a tree of long-lived references taken for one of short-lived ones through an exclusive reference.
#![allow(unused)]
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::ConstUsize;
use std::hint::black_box;
type D = DenseTree<Box<u64>, 3>;
type S = SparseTree<config::width_64::depth_3, Box<u64>>;
#[allow(dead_code)] fn d(n: usize) -> D { let mut t = D::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
#[allow(dead_code)] fn s(n: usize) -> S { let mut t = S::default(); for i in 0..n { t.insert(i * 13, Box::new(i as u64)); } t }
fn main() {
    hh::run::hostile_begin();
    let long = String::from("long");
    let mut t: SparseTree<config::width_64::depth_2, &String> = Default::default();
    t.insert(1, &long);
    fn put<'a>(t: &mut SparseTree<config::width_64::depth_2, &'a String>, x: &'a String) { t.insert(2, x); }
    { let short = String::from("short"); put(&mut t, &short); }
    black_box(t.get(2).unwrap().len());
}
