//! Canonical encoding of delivered data, so that any tree's elements can be compared with a model.
use std::cell::Cell;

thread_local! { pub static ADDR: Cell<bool> = const { Cell::new(false) }; }

pub trait Repr { fn repr(&self, o: &mut Vec<u64>); }

impl Repr for u64 { #[inline] fn repr(&self, o: &mut Vec<u64>) { o.push(*self) } }
impl<'a> Repr for &'a u64 {
    #[inline] fn repr(&self, o: &mut Vec<u64>) {
        if ADDR.with(|a| a.get()) { o.push(*self as *const u64 as u64) } else { o.push(**self) }
    }
}
impl<T: Repr> Repr for Option<T> {
    #[inline] fn repr(&self, o: &mut Vec<u64>) {
        match self { None => o.push(0xA0A0), Some(v) => { o.push(0xA1A1); v.repr(o) } }
    }
}
impl<A: Repr, B: Repr> Repr for (A, B) {
    #[inline] fn repr(&self, o: &mut Vec<u64>) { self.0.repr(o); self.1.repr(o) }
}
/// Already encoded.
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct R(pub Vec<u64>);
impl Repr for R { #[inline] fn repr(&self, o: &mut Vec<u64>) { o.extend_from_slice(&self.0) } }
impl<'a> Repr for &'a R { #[inline] fn repr(&self, o: &mut Vec<u64>) { o.extend_from_slice(&self.0) } }

pub fn enc<T: Repr>(t: &T) -> Vec<u64> { let mut v = vec![]; t.repr(&mut v); v }
pub fn eq<A: Repr, B: Repr>(a: &A, b: &B) -> bool { enc(a) == enc(b) }
pub fn r<A: Repr>(a: &A) -> R { R(enc(a)) }
