//! Compile-time helpers (C25).
use hh::check;
use hh::rng::mix2;
use hh::run::{Case, Scenario};
use hh::vals::{faults, live_ids, reset_ledger, Tracked, Val};
use hibit_tree::const_utils::*;
use hibit_tree::utils::Array;
use std::ops::ControlFlow::{self, *};

struct Log<'a> { seen: &'a mut Vec<usize>, stop: usize, sizes: &'a mut Vec<usize> }
impl<'a> ConstIntVisitor for Log<'a> {
    type Out = (usize, String);
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<(usize, String)> {
        check!(i.value() == I::VALUE && I::DEFAULT == i && I::default() == i, "an integer that is not itself");
        self.sizes.push(<I::SelfSizeArray<u16> as Array>::CAP);
        self.seen.push(I::VALUE);
        if self.seen.len() > self.stop { Break((I::VALUE, format!("stopped at {}", I::VALUE))) } else { Continue(()) }
    }
}
fn ranges<A: ConstInteger, B: ConstInteger>(c: &mut Case, a: A, b: B) {
    let (from, to) = (A::VALUE, B::VALUE);
    if from > to { return }
    for stop in 0..=to - from {
        for rev in [false, true] {
            let (mut seen, mut sizes) = (vec![], vec![]);
            let v = Log { seen: &mut seen, stop, sizes: &mut sizes };
            let r = if rev { const_for_rev(a, b, v) } else { const_for(a, b, v) };
            let mut e: Vec<usize> = (from..to).collect();
            if rev { e.reverse() }
            e.truncate(stop + 1);
            let broke = stop < to - from;
            let what = format!("const_for{}({from}, {to}) stopping after {}", if rev { "_rev" } else { "" }, stop + 1);
            check!(seen == e, "{what} visits {seen:?}, expected {e:?}");
            check!(sizes == seen, "{what}: array sizes {sizes:?}");
            match r {
                Break((n, s)) => check!(broke && n == *e.last().unwrap() && s == format!("stopped at {n}"), "{what} reports the break at {n}"),
                Continue(()) => check!(!broke, "{what} does not report the break"),
            }
            c.state_if(from < to, mix2(mix2(from as u64, to as u64), mix2(stop as u64, rev as u64)));
            c.count("loops", 1);
        }
    }
}
macro_rules! pairs { ($c:expr; $($a:literal)*) => {{ $( pairs!(@ $c, $a; 0 1 2 3 4 5 6 7 8 9); )* }}; (@ $c:expr, $a:literal; $($b:literal)*) => {{ $( ranges($c, ConstUsize::<$a>, ConstUsize::<$b>); )* }} }
fn loops(c: &mut Case) { c.label = "all bounds, all break positions".into(); pairs!(c; 0 1 2 3 4 5 6 7 8 9) }

fn ints(c: &mut Case) {
    c.label = "values and neighbours".into();
    fn val<I: ConstInteger>(_: I) -> usize { I::VALUE }
    fn one<I: ConstInteger>(c: &mut Case, n: usize) {
        let i = I::default();
        check!(I::VALUE == n && i.value() == n && val(I::DEFAULT) == n, "integer {n} is {}", I::VALUE);
        check!(<I::SelfSizeArray<u8> as Array>::CAP == n && <I::SelfSizeCopyArray<u32> as Array>::CAP == n, "arrays of size {n}");
        check!(I::SelfSizeArray::<u32>::from_fn(|k| k as u32 * 3).as_ref() == (0..n as u32).map(|k| k * 3).collect::<Vec<_>>(), "from_fn for {n}");
        check!(<<I::SelfSizeArray<u8> as ConstArray>::Cap as ConstInteger>::VALUE == n, "Cap of {n}");
        check!(i.sat_dec().value() == n.saturating_sub(1) && <I::SatDec as ConstInteger>::VALUE == n.saturating_sub(1), "sat_dec of {n} is {}", i.sat_dec().value());
        if n > 0 { check!(i.dec().value() == n - 1 && <I::Dec as ConstInteger>::VALUE == n - 1, "dec of {n} is {}", i.dec().value());
                   check!(val(i.dec().inc()) == n, "inc of dec of {n}") }
        if n < 9 { check!(i.inc().value() == n + 1 && <I::Inc as ConstInteger>::VALUE == n + 1, "inc of {n} is {}", i.inc().value());
                   check!(val(i.inc().dec()) == n, "dec of inc of {n}") }
        c.state(mix2(77, n as u64));
    }
    macro_rules! all { ($($n:literal)*) => {{ $( one::<ConstUsize<$n>>(c, $n); check!(ConstUsize::<$n> == ConstUsize::<$n>::DEFAULT, "default of {}", $n); )* }} }
    all!(0 1 2 3 4 5 6 7 8 9);
    check!(ConstTrue::VALUE && !ConstFalse::VALUE && ConstTrue.value() && !ConstFalse.value(), "booleans");
    check!(<<ConstTrue as ConstBool>::ConditionalInt<ConstUsize<3>, ConstUsize<5>> as ConstInteger>::VALUE == 3, "ConditionalInt");
    check!(<<ConstFalse as ConstBool>::ConditionalInt<ConstUsize<3>, ConstUsize<5>> as ConstInteger>::VALUE == 5, "ConditionalInt");
}

fn split_one<A: ConstArray<Item = T>, T>(c: &mut Case, n: usize, mk: &mut dyn FnMut() -> T, id: &dyn Fn(&T) -> u64) where A::DecArray: Array<Item = T> {
    let mut ids = vec![];
    let mut order = vec![];
    let a = A::from_fn(|i| { order.push(i); let t = mk(); ids.push(id(&t)); t });
    check!(order == (0..n).collect::<Vec<_>>(), "from_fn asks for {order:?}");
    check!(A::CAP == n && a.as_ref().len() == n, "array of {n}");
    let (rest, last) = a.split_last();
    check!(rest.as_ref().len() == n - 1 && <A::DecArray as Array>::CAP == n - 1, "split_last of {n} leaves {}", rest.as_ref().len());
    let got: Vec<u64> = rest.as_ref().iter().map(id).collect();
    check!(got == ids[..n - 1] && id(&last) == ids[n - 1], "split_last of {ids:x?} gives {got:x?} and {:x}", id(&last));
    c.state(mix2(mix2(88, n as u64), std::mem::size_of::<T>() as u64));
    c.count("splits", 1);
    drop(last);
    let got: Vec<u64> = rest.as_ref().iter().map(id).collect();
    check!(got == ids[..n - 1], "the rest changed");
}
fn split_all<V: Val>(c: &mut Case, check_live: bool) {
    c.label = V::NAME.into();
    let mut next = c.rng.u64() >> 8;
    macro_rules! all { ($($n:literal)*) => {{ $(
        split_one::<[V; $n], V>(c, $n, &mut || { next += 1; V::make(next) }, &|v| v.view());
        if check_live { check!(live_ids().is_empty() && faults().is_empty(), "after splitting {}: alive {:x?}, {:?}", $n, live_ids(), faults()); }
    )* }} }
    all!(1 2 3 4 5 6 7 8 9);
}
/// Down to the empty array: every element delivered once.
fn unwind_all(c: &mut Case) {
    c.label = "nine elements, one after the other".into();
    reset_ledger();
    fn go<A: ConstArray<Item = Tracked>>(c: &mut Case, a: A, ids: &mut Vec<u64>) where A::DecArray: Go { let (r, l) = a.split_last(); ids.push(l.id()); r.go(c, ids) }
    trait Go { fn go(self, c: &mut Case, ids: &mut Vec<u64>); }
    macro_rules! imp { ($($n:literal)*) => { $( impl Go for [Tracked; $n] { fn go(self, c: &mut Case, ids: &mut Vec<u64>) { go(c, self, ids) } } )* } }
    impl Go for [Tracked; 0] { fn go(self, _: &mut Case, _: &mut Vec<u64>) {} }
    imp!(1 2 3 4 5 6 7 8 9);
    let mut ids = vec![];
    <[Tracked; 9]>::from_fn(|i| Tracked::make(100 + i as u64)).go(c, &mut ids);
    check!(ids == (100..109).rev().collect::<Vec<_>>(), "elements split off in order: {ids:?}");
    check!(live_ids().is_empty() && faults().is_empty(), "alive {:x?}, {:?}", live_ids(), faults());
    c.state(mix2(89, 0));
}
fn splits(c: &mut Case) {
    use hh::vals::*;
    match c.no % 6 {
        0 => { reset_ledger(); split_all::<Tracked>(c, true) }
        1 => split_all::<u64>(c, false), 2 => split_all::<Boxed>(c, false), 3 => split_all::<Big>(c, false), 4 => split_all::<Tiny>(c, false),
        _ => { z_reset(); split_all::<ZTracked>(c, false); let (a, b, d) = z_counts(); check!(a == 45 && b == 45 && d == 0, "zero-sized elements: {a} made, {b} dropped, {d} by default") }
    }
}

type Ct<B, T, F> = CondType<B, T, F>;
fn cond_one<B: ConstBool, T: Val, F: Val>(c: &mut Case, clone: impl Fn(&Ct<B, T, F>) -> Option<Ct<B, T, F>>) {
    let (t, f) = (c.rng.u64() >> 8, c.rng.u64() >> 8);
    let (mut nt, mut nf) = (0, 0);
    let live = |x: &[u64], what: &str| check!(live_ids() == x && faults().is_empty(), "{what}: alive {:x?}, expected {x:x?}, {:?}", live_ids(), faults());
    let tracked = T::NAME == "tracked" && F::NAME == "tracked";
    reset_ledger();
    let read = |x: &Ct<B, T, F>| match x.get() { Either::True(v) => { check!(B::VALUE, "holds the wrong alternative"); v.view() } Either::False(v) => { check!(!B::VALUE, "holds the wrong alternative"); v.view() } };
    let (e, e2) = if B::VALUE { (T::canon(t), T::canon(t + 1)) } else { (F::canon(f), F::canon(f + 1)) };
    let id = if B::VALUE { t } else { f };
    let what = format!("CondType<{}, {}, {}>", B::VALUE, T::NAME, F::NAME);
    c.label = what.clone();
    let mut x = Ct::<B, T, F>::new(|| { nt += 1; T::make(t) }, || { nf += 1; F::make(f) });
    check!((nt, nf) == (B::VALUE as u32, !B::VALUE as u32), "{what}: new called its functions {nt} and {nf} times");
    check!(read(&x) == e && read(&x) == e, "{what} holds {:x}, not {e:x}", read(&x));
    if tracked { live(&[id], &what) }
    match x.get_mut() { Either::True(v) => { check!(B::VALUE, "{what}: wrong alternative"); *v = T::make(t + 1) } Either::False(v) => { check!(!B::VALUE, "{what}: wrong alternative"); *v = F::make(f + 1) } }
    check!(read(&x) == e2, "{what} holds {:x} after writing {e2:x}", read(&x));
    if tracked { live(&[id + 1], &what) }
    if let Some(mut y) = clone(&x) {
        check!(read(&y) == e2, "{what}: the clone holds {:x}", read(&y));
        match y.get_mut() { Either::True(v) => *v = T::make(t), Either::False(v) => *v = F::make(f) }
        check!(read(&x) == e2 && read(&y) == e, "{what}: the clone is not independent");
    }
    drop(x);
    if tracked { live(&[], &what) }
    let n0 = hh::vals::ledger(|l| l.defaults);
    let d = Ct::<B, T, F>::default();
    let made = hh::vals::ledger(|l| l.defaults) - n0;
    let want = if B::VALUE { T::NAME == "tracked" } else { F::NAME == "tracked" } as u64;
    check!(made == want, "{what}: its default made {made} defaults of the tracked kind, expected {want}");
    check!(read(&d) == if B::VALUE { T::default().view() } else { F::default().view() }, "{what}: default holds {:x}", read(&d));
    drop(d);
    if tracked { live(&[], &what) }
    c.state(mix2(mix2(90, B::VALUE as u64), what.bytes().fold(0, |h, b| mix2(h, b as u64))));
    c.count("conditionals", 1);
}
fn conds(c: &mut Case) {
    use hh::vals::*;
    macro_rules! both { ($t:ty, $f:ty) => {{ cond_one::<ConstTrue, $t, $f>(c, |_| None); cond_one::<ConstFalse, $t, $f>(c, |_| None) }} }
    macro_rules! both_clone { ($t:ty, $f:ty) => {{ cond_one::<ConstTrue, $t, $f>(c, |x| Some(x.clone())); cond_one::<ConstFalse, $t, $f>(c, |x| Some(x.clone())) }} }
    both!(Tracked, Tracked); both!(Tiny, Big); both!(Big, Tiny); both!(Zst, Boxed); both!(Boxed, Zst); both!(u64, Tracked); both!(Tracked, u64);
    both_clone!(u64, Text); both_clone!(Text, u64); both_clone!(Text, Text);
    let a: CondType<ConstTrue, u8, String> = 7u8.into();
    let b: CondType<ConstFalse, u8, String> = String::from("seven").into();
    check!(matches!(a.get(), Either::True(7)) && matches!(b.get(), Either::False(s) if s == "seven"), "conversion from the alternative");
    check!(a.0 == 7 && b.0 == "seven", "the field");
}
#[derive(Clone, Default)]
struct Text(String);
impl Val for Text {
    const NAME: &'static str = "String";
    fn make(id: u64) -> Self { Text(format!("{id}")) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 { self.0.parse().unwrap_or(0) }
}
/// An owned value is handed over as it is, a borrowed one is cloned, and only when asked.
fn takes(c: &mut Case) {
    use hh::vals::*;
    use hibit_tree::utils::{Borrowable, Ref, RefLt, Take};
    use std::cell::Cell;
    struct Cl<'a, V> { v: V, clones: &'a Cell<usize>, back: u64 }
    impl<'a, V: Val> Clone for Cl<'a, V> { fn clone(&self) -> Self { self.clones.set(self.clones.get() + 1); Cl { v: V::make(self.back), clones: self.clones, back: self.back } } }
    fn one<V: Val>(c: &mut Case) {
        let n = Cell::new(0);
        let mut mk = || { let (own, back) = (c.rng.u64() >> 8, c.rng.u64() >> 8); Cl { v: V::make(own), clones: &n, back } };
        let (a, b, d, e) = (mk(), mk(), mk(), mk());
        let (ia, ib, id, ie) = (a.v.view(), b.v.view(), d.v.view(), e.v.view());
        let ra: Cl<V> = Take::take(a);
        let rb: Option<Cl<V>> = Take::try_take(b);
        let rd: Cl<V> = Take::take_or_clone(d);
        check!(n.get() == 0, "taking an owned {} clones it", V::NAME);
        check!(ra.v.view() == ia && rd.v.view() == id && rb.as_ref().is_some_and(|x| x.v.view() == ib), "taking an owned {} gives something else", V::NAME);
        let re: Option<Cl<V>> = Take::try_take(&e);
        check!(re.is_none() && n.get() == 0, "a borrowed {} is taken", V::NAME);
        let re: Cl<V> = Take::take_or_clone(&e);
        check!(n.get() == 1 && re.v.view() == V::canon(e.back) && e.v.view() == ie, "take_or_clone of a borrowed {}: {} clones", V::NAME, n.get());
        fn same<'a, R: RefLt<'a> + Ref<Type = T>, T: 'a>(r: R, t: &T) -> bool { std::ptr::eq(r.get_ref(), t) }
        check!(same(&e, &e), "get_ref of a {} refers to another one", V::NAME);
        struct B<T>(T);
        impl<T> Borrowable for B<T> { type Borrowed = Self; }
        fn at<T: Borrowable>(t: &T) -> *const T::Borrowed { t.borrow() }
        let x = B(e);
        check!(std::ptr::eq(at(&x), &x) && std::ptr::eq(at(&&x), &x) , "borrow of a {} refers to another one", V::NAME);
        c.state(mix2(91, V::NAME.bytes().fold(0, |h, b| mix2(h, b as u64))));
        c.count("takes", 1);
    }
    c.label = "owned and borrowed values".into();
    reset_ledger();
    one::<Tracked>(c);
    check!(live_ids().is_empty() && faults().is_empty(), "alive {:x?}, {:?}", live_ids(), faults());
    one::<u64>(c); one::<Zst>(c); one::<Boxed>(c); one::<Big>(c); one::<Text>(c);
}
/// The integer behind the trait.
fn prims(c: &mut Case) {
    use hibit_tree::utils::Primitive;
    c.label = "primitives".into();
    macro_rules! one { ($($t:ty)*) => {{ $( {
        fn go<P: Primitive>(c: &mut Case, x: P, y: P, s: usize) -> Vec<(&'static str, P)> {
            let (mut a, mut b, mut d, mut e, mut f) = (x, x, x, x, x);
            a &= y; b |= y; d ^= y; e <<= P::from_usize(s); f >>= P::from_usize(s);
            c.count("primitives", 1);
            vec![("zero", P::ZERO), ("one", P::ONE), ("min", P::MIN), ("max", P::MAX), ("default", P::default()), ("not", !x), ("and", x & y), ("or", x | y), ("xor", x ^ y),
                 ("and=", a), ("or=", b), ("xor=", d), ("shl=", e), ("shr=", f), ("shl", x << s), ("shr", x >> s), ("shl self", x << P::from_usize(s)), ("shr self", x >> P::from_usize(s)),
                 ("neg", x.wrapping_neg()), ("tz", P::from_usize(x.trailing_zeros() as usize)), ("is_zero", P::from_usize(x.is_zero() as usize)), ("u8", P::from_usize(x.as_u8() as usize)),
                 ("usize", P::from_usize(x.as_usize())), ("less", P::from_usize((x < y) as usize))]
        }
        let n = <$t>::BITS as usize;
        let r = c.rng.u64();
        let x = match c.rng.u64() % 4 { 0 => 0, 1 => (1 as $t) << (r as usize % n), 2 => <$t>::MAX << (r as usize % n), _ => r as $t };
        let (y, s) = (c.rng.u64() as $t, c.rng.u64() as usize % n);
        let e: Vec<(&str, $t)> = vec![("zero", 0), ("one", 1), ("min", <$t>::MIN), ("max", <$t>::MAX), ("default", 0), ("not", !x), ("and", x & y), ("or", x | y), ("xor", x ^ y),
            ("and=", x & y), ("or=", x | y), ("xor=", x ^ y), ("shl=", x << s), ("shr=", x >> s), ("shl", x << s), ("shr", x >> s), ("shl self", x << s), ("shr self", x >> s),
            ("neg", (0 as $t).wrapping_sub(x)), ("tz", (0..n).find(|i| x >> i & 1 == 1).unwrap_or(n) as $t), ("is_zero", (x == 0) as $t), ("u8", x as u8 as $t), ("usize", x), ("less", (x < y) as $t)];
        let g = go::<$t>(c, x, y, s);
        for (e, g) in e.iter().zip(&g) { check!(e == g, "{} of {x:#x} with {y:#x} and {s} in {}: {:#x}, expected {:#x}", e.0, stringify!($t), g.1, e.1); }
        check!(<$t as Primitive>::as_usize(x) == x as usize && <$t as Primitive>::from_usize(r as usize) == r as usize as $t, "conversion of {r:#x} to {}", stringify!($t));
        c.state_if(x != 0, mix2(mix2(92, n as u64), x.count_ones() as u64));
    } )* }} }
    one!(u8 u16 u32 u64 usize);
}
const SC: &[Scenario] = &[("const_take", 6, takes), ("const_prim", 200, prims), ("const_loops", 1, loops), ("const_ints", 1, ints), ("const_split", 12, splits), ("const_unwind", 2, unwind_all), ("const_cond", 8, conds)];
fn main() { hh::run::main(SC) }
