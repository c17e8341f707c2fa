//! Bit blocks (C22) and bit queues (C23) against plain lists of bools.
use hh::check;
use hh::rng::{mix2, Rng};
use hh::run::{Case, Scenario};
use hibit_tree::bit_queue::{ArrayBitQueue, BitQueue, EmptyBitQueue, PrimitiveBitQueue};
use hibit_tree::utils::{Array, Primitive};
use hibit_tree::{BitBlock, HibitTree};
use std::ops::ControlFlow::{self, *};

/// Bits of structured shapes: words empty, full, single, bordering, sparse, dense.
fn pattern(r: &mut Rng, n: usize, word: usize) -> Vec<bool> {
    let mut v = vec![false; n];
    match r.below(12) {
        0 => {}
        1 => v.fill(true),
        2 => { let i = r.below(n); v[i] = true }
        3 => { v.fill(true); let i = r.below(n); v[i] = false }
        4 => { for _ in 0..r.range(1, 4) { let i = r.below(n); v[i] = true } }
        5 => { let (a, b) = (r.below(n + 1), r.below(n + 1)); v[a.min(b)..a.max(b)].fill(true) }
        6 => { for i in 0..n { if i % word == 0 || i % word == word - 1 { v[i] = r.chance(2, 3) } } }
        7 => { let d = r.range(1, 15); for x in v.iter_mut() { *x = r.chance(d, 16) } }
        8 => { v[0] = true; v[n - 1] = true }
        _ => for w in 0..n / word {
            let s = &mut v[w * word..(w + 1) * word];
            match r.below(6) {
                0 | 1 => {}
                2 => s.fill(true),
                3 => { let i = r.below(word); s[i] = true }
                4 => { s[if r.chance(1, 2) { 0 } else { word - 1 }] = true }
                _ => { for x in s.iter_mut() { *x = r.chance(1, 3) } }
            }
        },
    }
    v
}
fn words(v: &[bool]) -> Vec<u64> { v.chunks(64).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u64) << i)).collect() }
fn ones(v: &[bool]) -> Vec<usize> { (0..v.len()).filter(|i| v[*i]).collect() }
fn show(v: &[bool]) -> String { words(v).iter().map(|w| format!("{w:016x}")).collect::<Vec<_>>().join(":") }
fn hash(v: &[bool], salt: u64) -> u64 { words(v).iter().fold(mix2(salt, v.len() as u64), |h, w| mix2(h, *w)) }
fn block<B: BitBlock>(v: &[bool]) -> B {
    let mut b = B::zero();
    for (d, s) in b.as_array_mut().as_mut().iter_mut().zip(words(v)) { *d = s }
    b
}
fn traverse(f: impl FnOnce(&mut dyn FnMut(usize) -> ControlFlow<()>) -> ControlFlow<()>, stop: usize) -> (Vec<usize>, ControlFlow<()>) {
    let mut got = vec![];
    let r = f(&mut |i| { got.push(i); if got.len() > stop { Break(()) } else { Continue(()) } });
    (got, r)
}
/// Everything a block says about itself.
fn same<B: BitBlock>(b: &B, v: &[bool], what: &str) {
    let n = v.len();
    check!(B::SIZE == n, "SIZE is {}", B::SIZE);
    check!(b.as_array().as_ref() == words(v), "{what}: the array view gives {:x?}, expected {}", b.as_array().as_ref(), show(v));
    for i in 0..n { check!(b.get_bit(i) == v[i], "{what}: get_bit({i}) of {} gives {}", show(v), b.get_bit(i)); }
    let o = ones(v);
    check!(b.count_ones() == o.len(), "{what}: count_ones of {} gives {}", show(v), b.count_ones());
    check!(b.is_zero() == o.is_empty(), "{what}: is_zero of {} gives {}", show(v), b.is_zero());
    check!((*b == B::zero()) == o.is_empty(), "{what}: comparison of {} with zero", show(v));
    check!(*b == block::<B>(v), "{what}: {} is not equal to itself", show(v));
    let (got, r) = traverse(|f| b.traverse_bits(|i| f(i)), usize::MAX);
    check!(got == o && r.is_continue(), "{what}: traverse_bits of {} visits {got:?}, {r:?}", show(v));
    let got: Vec<usize> = b.clone().into_bits_iter().collect();
    check!(got == o, "{what}: into_bits_iter of {} gives {got:?}", show(v));
}
fn stops<B: BitBlock>(r: &mut Rng, b: &B, v: &[bool]) {
    let o = ones(v);
    if o.is_empty() { return }
    for k in [r.below(o.len()), 0, o.len() - 1] {
        let (got, res) = traverse(|f| b.traverse_bits(|i| f(i)), k);
        check!(got == o[..=k] && res.is_break(), "traverse_bits of {} told to stop after {} visits {got:?}, {res:?}", show(v), k + 1);
        let (got, res) = traverse(|f| b.clone().into_bits_iter().traverse(|i| f(i)), k);
        check!(got == o[..=k] && res.is_break(), "traverse of the bits of {} told to stop after {} visits {got:?}, {res:?}", show(v), k + 1);
    }
}
fn algebra<B: BitBlock>(c: &mut Case, n: usize) {
    c.label = format!("{n} bits");
    for _ in 0..c.sz(2, 40) {
        let (x, mut y) = (pattern(&mut c.rng, n, 64), pattern(&mut c.rng, n, 64));
        // operands that differ in little: equality and single lanes matter then
        if c.rng.chance(1, 3) { y = x.clone(); if c.rng.chance(2, 3) { let i = c.rng.below(n); y[i] = !y[i] } }
        let (a, b) = (block::<B>(&x), block::<B>(&y));
        let and: Vec<bool> = x.iter().zip(&y).map(|(p, q)| *p && *q).collect();
        let or: Vec<bool> = x.iter().zip(&y).map(|(p, q)| *p || *q).collect();
        same(&a, &x, "block");
        same(&(a.clone() & b.clone()), &and, "&");
        same(&(a.clone() | b.clone()), &or, "|");
        macro_rules! assign { ($op:tt, $rhs:expr, $exp:expr, $what:literal) => {{ let mut m = a.clone(); m $op $rhs; same(&m, $exp, $what) }} }
        assign!(&=, b.clone(), &and, "&=");
        assign!(&=, &b, &and, "&= by reference");
        assign!(|=, b.clone(), &or, "|=");
        assign!(|=, &b, &or, "|= by reference");
        check!((a == b) == (x == y) && (a != b) == (x != y), "comparison of {} and {}", show(&x), show(&y));
        same(&a, &x, "left operand afterwards"); same(&b, &y, "right operand afterwards");
        stops(&mut c.rng, &a, &x);
        let h = hash(&x, hash(&y, 1));
        c.state_if(x.contains(&true), h);
        c.count("pairs_of_blocks", 1);
    }
}
fn history<B: BitBlock>(c: &mut Case, n: usize) {
    c.label = format!("{n} bits");
    let mut v = pattern(&mut c.rng, n, 64);
    let mut b = block::<B>(&v);
    let near = c.rng.below(n);
    for _ in 0..c.sz(12, 300) {
        let i = match c.rng.below(4) { 0 => c.rng.below(n), 1 => (near + c.rng.below(3)) % n, 2 => c.rng.below(n / 64) * 64 + [0, 63, 1, 31, 32][c.rng.below(5)], _ => [0, n - 1][c.rng.below(2)] };
        let (was, to);
        if c.rng.chance(1, 2) { to = true; was = b.set_bit::<true>(i) } else { to = false; was = b.set_bit::<false>(i) }
        check!(was == v[i], "set_bit::<{to}>({i}) on {} returned {was}", show(&v));
        v[i] = to;
        same(&b, &v, "after set_bit");
        c.count("bits_set", 1);
        if c.rng.chance(1, 20) {
            let w = pattern(&mut c.rng, n, 64);
            for (d, s) in b.as_array_mut().as_mut().iter_mut().zip(words(&w)) { *d = s }
            v = w;
            same(&b, &v, "written through as_array_mut");
        }
        if c.rng.chance(1, 8) { stops(&mut c.rng, &b, &v) }
        c.state_if(v.contains(&true), hash(&v, 2));
    }
}
/// Every position, from the empty and the full block.
fn positions<B: BitBlock>(c: &mut Case, n: usize) {
    c.label = format!("{n} bits");
    let few = c.scale == 0;
    for i in (0..n).filter(|i| !few || i % 64 < 2 || i % 64 > 62) {
        for full in [false, true] {
            let mut v = vec![full; n];
            let mut b = block::<B>(&v);
            for to in [!full, !full, full, full] {
                let was = if to { b.set_bit::<true>(i) } else { b.set_bit::<false>(i) };
                check!(was == v[i], "set_bit::<{to}>({i}) on {} returned {was}", show(&v));
                v[i] = to;
                if !few || i % 64 == 0 { same(&b, &v, "after set_bit") } else { check!(b.as_array().as_ref() == words(&v), "set_bit::<{to}>({i})") }
            }
            v[i] = !full; b = block::<B>(&v);
            if !full { stops(&mut c.rng, &b, &v) }
            c.state(hash(&v, 3));
            c.count("positions", 1);
        }
    }
}
type M64 = u64;
#[cfg(feature = "simd")] type M128 = <hh::trees::S128<1, u64> as HibitTree>::LevelMask;
#[cfg(feature = "simd")] type M256 = <hh::trees::S256<1, u64> as HibitTree>::LevelMask;
macro_rules! widths { ($c:expr, $f:ident) => {{ let c = $c; if cfg!(not(feature = "simd")) && c.no % 3 != 0 { c.digest = None /* no counterpart in this build */ } match c.no % 3 {
    #[cfg(feature = "simd")] 1 => $f::<M128>(c, 128),
    #[cfg(feature = "simd")] 2 => $f::<M256>(c, 256),
    _ => $f::<M64>(c, 64) } }} }
fn b_algebra(c: &mut Case) { widths!(c, algebra) }
fn b_history(c: &mut Case) { widths!(c, history) }
fn b_positions(c: &mut Case) { widths!(c, positions) }
/// The masks that trees of the width use.
fn b_types(c: &mut Case) {
    fn size<T: HibitTree>() -> usize { <T::LevelMask as BitBlock>::SIZE }
    use hh::trees::*;
    check!(size::<hibit_tree::DenseTree<u64, 3>>() == 64 && size::<S64<3, u64>>() == 64, "masks of 64-bit trees");
    #[cfg(feature = "simd")]
    check!(size::<S128<3, u64>>() == 128 && size::<S256<3, u64>>() == 256, "masks of wide trees");
    c.state(mix2(4, c.no as u64 % 2));
}

// ---------------------------------------------------------------- queues

/// One queue under test with the bits it should still hold.
struct Q<T> { q: T, left: Vec<usize>, popped: Option<usize>, ended: bool, trimmed: bool }
impl<T: BitQueue> Q<T> {
    fn current(&self, cap: usize, hist: &str) {
        let cur = self.q.current();
        if let Some(p) = self.popped { check!(cap == 0 || cur > p, "{hist}: current() is {cur} after {p} was returned"); }
        if let Some(n) = self.left.first() { check!(cur <= *n, "{hist}: current() is {cur}, but {n} is still to come"); }
        check!(cur <= cap, "{hist}: current() is {cur} of {cap}");
        if self.ended { check!(cur == cap, "{hist}: current() is {cur} of {cap} after the end"); }
    }
}
fn drive<T: BitQueue>(c: &mut Case, q: T, left: Vec<usize>, cap: usize, word: usize, what: &str) {
    c.label = what.to_string();
    let h0 = left.iter().fold(mix2(cap as u64, word as u64), |h, i| mix2(h, *i as u64));
    let mut qs = vec![Q { q, left, popped: None, ended: false, trimmed: false }];
    let mut hist = what.to_string();
    qs[0].current(cap, &hist);
    let (nops, big) = (c.rng.range(1, 14), c.rng.chance(1, 3));
    for step in 0..nops {
        let i = c.rng.below(qs.len());
        let x = &mut qs[i];
        let op = c.rng.below(10);
        if hist.len() < 1500 { hist += &format!(" | q{i} "); }
        match op {
            0..=2 => {
                let n = if big { c.rng.range(1, 40) } else { c.rng.range(1, 3) };
                for _ in 0..n {
                    let e = if x.left.is_empty() { None } else { Some(x.left.remove(0)) };
                    let g = x.q.next();
                    check!(g == e, "{hist}: next gives {g:?}, expected {e:?}");
                    if e.is_some() { x.popped = e } else { x.ended = true }
                }
                hist += &format!("next*{n}");
            }
            3..=5 => {
                let n = match c.rng.below(8) {
                    0 => cap, 1 => cap + c.rng.below(70), 2 => usize::MAX - c.rng.below(2), 3 => c.rng.below(cap / word + 2) * word,
                    4 => x.left.first().copied().unwrap_or(3) + c.rng.below(2), 5 => x.left.last().copied().unwrap_or(3) + c.rng.below(2),
                    _ => c.rng.below(cap + 2),
                };
                x.q.trim_to(n);
                x.left.retain(|i| *i >= n);
                x.trimmed = true;
                hist += &format!("trim_to({n})");
            }
            6 => {
                let k = x.q.clone();
                let y = Q { q: k, left: x.left.clone(), popped: x.popped, ended: x.ended, trimmed: x.trimmed };
                hist += "clone";
                if qs.len() < 4 { qs.push(y) }
            }
            7 => {
                let stop = if x.left.is_empty() || c.rng.chance(1, 2) { usize::MAX } else { c.rng.below(x.left.len()) };
                let (got, r) = traverse(|f| x.q.clone().traverse(|i| f(i)), stop);
                let e = &x.left[..x.left.len().min(stop.saturating_add(1))];
                check!(got == e && r.is_break() == (stop < x.left.len()), "{hist}: traverse(stop after {stop}) visits {got:?}, {r:?}; expected {e:?}");
                hist += "traverse";
            }
            8 => {
                let mut got = vec![];
                x.q.clone().for_each(|i| got.push(i));
                check!(got == x.left, "{hist}: for_each visits {got:?}, expected {:?}", x.left);
                hist += "for_each";
            }
            _ => {
                let l = &x.left;
                let (lo, hi) = x.q.size_hint();
                check!(lo <= l.len() && hi.map_or(true, |h| h >= l.len()), "{hist}: size_hint is {lo}, {hi:?} with {} left", l.len());
                let got: Vec<usize> = x.q.clone().collect();
                check!(got == *l, "{hist}: the queue holds {got:?}, expected {l:?}");
                let f = x.q.clone().fold(vec![], |mut v, i| { v.push(i); v });
                check!(f == *l, "{hist}: fold visits {f:?}, expected {l:?}");
                check!(x.q.clone().count() == l.len() && x.q.clone().last() == l.last().copied(), "{hist}: count or last");
                let k = c.rng.below(l.len() + 2);
                let mut y = x.q.clone();
                check!(y.nth(k) == l.get(k).copied() && y.next() == l.get(k + 1).copied(), "{hist}: nth({k})");
                check!(x.q.clone().max() == l.last().copied() && x.q.clone().min() == l.first().copied(), "{hist}: min or max");
                hist += "inspect";
            }
        }
        qs[i].current(cap, &hist);
        c.count("queue_operations", 1);
        if step + 1 == nops { c.state_if(!qs[0].left.is_empty() || nops > 1, mix2(h0, qs.iter().fold(step as u64, |h, q| q.left.iter().fold(mix2(h, 9), |h, i| mix2(h, *i as u64))))) }
    }
    c.log(|| hist.clone());
    for x in qs {
        let got: Vec<usize> = x.q.clone().collect();
        check!(got == x.left, "{hist}: at the end the queue holds {got:?}, expected {:?}", x.left);
        let mut q = x.q;
        while q.next().is_some() {}
        check!(q.next().is_none() && q.current() == cap, "{hist}: current() is {} of {cap} at the end", q.current());
    }
}
/// P from the bits of one word
fn prim<P: Primitive>(v: &[bool]) -> P { let mut p = P::ZERO; for (i, b) in v.iter().enumerate() { if *b { p |= P::ONE << i } } p }
fn q_prim<P: Primitive>(c: &mut Case) {
    let n = std::mem::size_of::<P>() * 8;
    for _ in 0..c.sz(3, 60) {
        let v = pattern(&mut c.rng, n, n);
        match c.rng.below(8) {
            0 => drive(c, PrimitiveBitQueue::<P>::empty(), vec![], n, n, "empty"),
            1 => drive(c, PrimitiveBitQueue::<P>::filled(), (0..n).collect(), n, n, "filled"),
            _ => drive(c, PrimitiveBitQueue::<P>::new(prim(&v)), ones(&v), n, n, &format!("PrimitiveBitQueue of {n} bits {}", show(&v))),
        }
    }
}
fn q_arr<P: Primitive, const N: usize>(c: &mut Case) {
    let w = std::mem::size_of::<P>() * 8;
    let n = w * N;
    for _ in 0..c.sz(3, 60) {
        let v = pattern(&mut c.rng, n, w);
        match c.rng.below(8) {
            0 => drive(c, ArrayBitQueue::<P, N>::empty(), vec![], n, w, "empty"),
            1 => drive(c, ArrayBitQueue::<P, N>::filled(), (0..n).collect(), n, w, "filled"),
            _ => drive(c, ArrayBitQueue::<P, N>::new(std::array::from_fn(|k| prim(&v[k * w..(k + 1) * w]))), ones(&v), n, w,
                       &format!("ArrayBitQueue of {N} * {w} bits {}", show(&v))),
        }
    }
}
fn q_block<B: BitBlock>(c: &mut Case, n: usize) {
    for _ in 0..c.sz(3, 60) {
        let v = pattern(&mut c.rng, n, 64);
        match c.rng.below(8) {
            0 => drive(c, B::BitsIter::empty(), vec![], n, 64, "empty"),
            1 => drive(c, B::BitsIter::filled(), (0..n).collect(), n, 64, "filled"),
            _ => drive(c, block::<B>(&v).into_bits_iter(), ones(&v), n, 64, &format!("bits of a block of {n}: {}", show(&v))),
        }
    }
}
fn qs_prim(c: &mut Case) { match c.no % 5 { 0 => q_prim::<u8>(c), 1 => q_prim::<u16>(c), 2 => q_prim::<u32>(c), 3 => q_prim::<usize>(c), _ => q_prim::<u64>(c) } }
fn qs_arr(c: &mut Case) {
    match c.no % 14 {
        0 => q_arr::<u8, 1>(c), 1 => q_arr::<u8, 2>(c), 2 => q_arr::<u8, 3>(c), 3 => q_arr::<u8, 8>(c), 4 => q_arr::<u16, 2>(c), 5 => q_arr::<u16, 5>(c),
        6 => q_arr::<u32, 2>(c), 7 => q_arr::<u32, 8>(c), 8 => q_arr::<u64, 1>(c), 9 => q_arr::<u64, 2>(c), 10 => q_arr::<u64, 3>(c), 11 => q_arr::<usize, 4>(c),
        12 => q_arr::<u64, 4>(c), _ => q_arr::<u64, 4>(c),
    }
}
fn qs_block(c: &mut Case) { widths!(c, q_block) }
fn qs_empty(c: &mut Case) {
    drive(c, EmptyBitQueue::empty(), vec![], 0, 64, "EmptyBitQueue::empty");
    drive(c, EmptyBitQueue::filled(), vec![], 0, 64, "EmptyBitQueue::filled");
}
/// Every single trim of filled and random queues, before and after every number of pops.
fn q_grid<T: BitQueue>(c: &mut Case, q: T, v: &[bool], what: &str) {
    let (o, n) = (ones(v), v.len());
    c.label = what.to_string();
    let step = if c.scale == 0 { n / 4 + 1 } else if n > 64 { 7 } else { 1 };
    for pops in (0..=o.len()).step_by(step).chain([o.len()]) {
        for t in (0..=n + 1).step_by(if c.scale == 0 { n / 4 + 1 } else { 1 }) {
            let mut x = q.clone();
            let got: Vec<usize> = (&mut x).take(pops).collect();
            check!(got == o[..pops], "{what}: first {pops} give {got:?}");
            x.trim_to(t);
            let left: Vec<usize> = o[pops..].iter().copied().filter(|i| *i >= t).collect();
            let got: Vec<usize> = x.clone().collect();
            check!(got == left, "{what}: after {pops} pops, trim_to({t}) leaves {got:?}, expected {left:?}");
            let (got, r) = traverse(|f| x.clone().traverse(|i| f(i)), usize::MAX);
            check!(got == left && r.is_continue(), "{what}: after {pops} pops and trim_to({t}), traverse visits {got:?}, {r:?}");
            let cur = x.current();
            check!(left.first().map_or(cur <= n, |l| cur <= *l), "{what}: after {pops} pops and trim_to({t}), current() is {cur}");
            c.state_if(!left.is_empty(), mix2(hash(v, 5), mix2(pops as u64, t as u64)));
            c.count("pops_and_trims", 1);
        }
    }
}
fn qs_grid(c: &mut Case) {
    macro_rules! arr { ($t:ty, $n:literal) => {{ let w = <$t>::BITS as usize; let v = pattern(&mut c.rng, w * $n, w);
        let q = ArrayBitQueue::<$t, $n>::new(std::array::from_fn(|k| prim(&v[k * w..(k + 1) * w]))); q_grid(c, q, &v, concat!(stringify!($t), "*", stringify!($n))) }} }
    match c.no % 7 {
        0 => arr!(u64, 2), 1 => arr!(u64, 4), 2 => arr!(u8, 3), 3 => arr!(u32, 2), 4 => arr!(u64, 1),
        5 => { let v = pattern(&mut c.rng, 64, 64); q_grid(c, PrimitiveBitQueue::<u64>::new(prim(&v)), &v, "u64") }
        _ => { let v = pattern(&mut c.rng, 16, 16); q_grid(c, PrimitiveBitQueue::<u16>::new(prim(&v)), &v, "u16") }
    }
}
/// All 65536 patterns of two words of eight bits (a slice of them per case).
fn qs_all(c: &mut Case) {
    c.label = "all patterns of u16 and 2 * u8".into();
    let (from, n) = (c.no * 1024 % 65536, c.sz(16, 1024));
    for p in from..from + n {
        let v: Vec<bool> = (0..16).map(|i| p >> i & 1 == 1).collect();
        let o = ones(&v);
        let t = (p ^ p >> 7) % 18;
        let left: Vec<usize> = o.iter().copied().filter(|i| *i >= t).collect();
        let mut a = PrimitiveBitQueue::<u16>::new(p as u16);
        let mut b = ArrayBitQueue::<u8, 2>::new([p as u8, (p >> 8) as u8]);
        check!(a.clone().eq(o.iter().copied()) && b.clone().eq(o.iter().copied()), "queues of {p:#x}");
        a.trim_to(t); b.trim_to(t);
        check!(a.clone().eq(left.iter().copied()) && b.clone().eq(left.iter().copied()), "queues of {p:#x} after trim_to({t})");
        let e = (traverse(|f| a.traverse(|i| f(i)), 2), traverse(|f| b.traverse(|i| f(i)), 2));
        check!(e.0 == e.1 && e.0.0 == left[..left.len().min(3)], "traverse of {p:#x} after trim_to({t})");
        c.state_if(p != 0, mix2(6, p as u64));
    }
    c.count("patterns", n as u64);
}
const SC: &[Scenario] = &[
    ("block_algebra", 60, b_algebra), ("block_history", 60, b_history), ("block_positions", 3, b_positions), ("block_types", 1, b_types),
    ("queue_prim", 40, qs_prim), ("queue_array", 56, qs_arr), ("queue_block", 60, qs_block), ("queue_empty", 4, qs_empty), ("queue_grid", 14, qs_grid), ("queue_all", 8, qs_all),
];
fn main() { hh::run::main(SC) }
