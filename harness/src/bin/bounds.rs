//! Which trees may be shared between threads and sent to them.
use hh::check;
use hh::run::{Case, Scenario};
use hh::trees::*;
use hibit_tree::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

struct Is<T: ?Sized>(PhantomData<T>);
trait Not { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> Not for Is<T> {}
struct IsSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Not for IsSync<T> {}
impl<T: ?Sized + Send> Is<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> IsSync<T> { const SYNC: bool = true; }
macro_rules! yes { ($c:ident; $($t:ty),* $(,)?) => { $(
    check!(Is::<$t>::SEND, "{} can no longer be sent to another thread", stringify!($t));
    check!(IsSync::<$t>::SYNC, "{} can no longer be shared between threads", stringify!($t));
    $c.state(hh::rng::mix2(1, stringify!($t).bytes().fold(0, |h, b| hh::rng::mix2(h, b as u64))));
)* } }
macro_rules! no_send { ($c:ident; $($t:ty),* $(,)?) => { $( check!(!Is::<$t>::SEND, "safe code can send {} to another thread", stringify!($t));
    $c.state(hh::rng::mix2(2, stringify!($t).bytes().fold(0, |h, b| hh::rng::mix2(h, b as u64)))); )* } }
macro_rules! no_sync { ($c:ident; $($t:ty),* $(,)?) => { $( check!(!IsSync::<$t>::SYNC, "safe code can share {} between threads", stringify!($t));
    $c.state(hh::rng::mix2(3, stringify!($t).bytes().fold(0, |h, b| hh::rng::mix2(h, b as u64)))); )* } }
type U<'a, T> = ops::Union<&'a T, &'a T>;
type I<'a, T> = ops::Intersection<&'a T, &'a T>;
type M<'a, T> = ops::Map<&'a T, fn(&u64) -> u64>;
type T3 = S64<3, u64>;
fn shared(c: &mut Case) {
    c.label = "trees and operations over them".into();
    yes!(c; S64<1, u64>, S64<4, u64>, S64d<2, u64>, S64<8, String>, &'static S64<3, u64>, &'static mut S64<3, u64>, Box<S64<3, u64>>);
    #[cfg(feature = "simd")] yes!(c; S128<3, u64>, S128d<3, u64>, S256<2, u64>, S256d<2, u64>);
    yes!(c; U<'static, T3>, I<'static, T3>, M<'static, T3>, U<'static, U<'static, T3>>);
}
/// What would let safe code race.
fn denied(c: &mut Case) {
    c.label = "trees of values that must stay in their thread".into();
    no_send!(c; S64<1, Rc<u64>>, S64<3, Rc<u64>>, S64d<3, Rc<u64>>, DenseTree<Rc<u64>, 1>, DenseTree<Rc<u64>, 3>, S64<2, *const u8>, &'static S64<3, Cell<u64>>,
        ops::Union<S64<3, Rc<u64>>, S64<3, u64>>, ops::Intersection<S64<3, u64>, S64<3, Rc<u64>>>);
    no_sync!(c; S64<1, Cell<u64>>, S64<3, Cell<u64>>, S64d<3, Cell<u64>>, DenseTree<Cell<u64>, 1>, DenseTree<Cell<u64>, 3>, S64<2, Rc<u64>>,
        ops::Union<S64<3, Cell<u64>>, S64<3, u64>>, ops::Map<S64<3, Cell<u64>>, fn(&Cell<u64>)>);
}
const SC: &[Scenario] = &[("thr_shared", 1, shared), ("thr_denied", 1, denied)];
fn main() { hh::run::main(SC) }
