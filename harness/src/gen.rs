//! Operands for lazy expressions, and the same expressions over ordinary maps.
use crate::checks::{Map, MModel};
use crate::keys;
use crate::repr::{enc, Repr, R};
use crate::run::Case;
use crate::trees::{digits, undigits, TTree};
use hibit_tree::utils::{BinaryFunction, NullaryFunction, UnaryFunction};
use std::cell::RefCell;

/// Overlapping key sets over one universe: empty, equal, disjoint, sharing sub-trees but no keys ...
pub fn key_sets(c: &mut Case, w: usize, d: usize, n: usize, cap: usize) -> (Vec<usize>, Vec<Vec<usize>>) {
    let u = keys::universe(&mut c.rng, w, d, cap);
    let mut out = vec![];
    for _ in 0..n {
        let mode = c.rng.below(14);
        let mut ks: Vec<usize> = match mode {
            0 => vec![],
            1 | 2 => u.clone(),
            3..=6 => { let num = c.rng.range(1, 9); keys::subset(&mut c.rng, &u, num, 10) }
            // same nodes down to some level, other keys there
            7 | 8 => {
                let l = c.rng.below(d);
                let sh = c.rng.range(1, w - 1);
                let num = c.rng.range(4, 10);
                keys::subset(&mut c.rng, &u, num, 10).into_iter().map(|k| {
                    let mut g = digits(k, w, d); g[l] = (g[l] + sh) % w; undigits(&g, w)
                }).collect()
            }
            // only some top-level (or deeper) branches
            9 | 10 => {
                let l = c.rng.below(d);
                let m = c.rng.range(2, 3); let r = c.rng.below(m);
                u.iter().copied().filter(|k| digits(*k, w, d)[l] % m == r).collect()
            }
            // parity of the last digit: shares every terminal node, no keys with its complement
            11 => { let p = c.rng.below(2); u.iter().copied().filter(|k| k % 2 == p).collect() }
            // contiguous slice
            12 => { let a = c.rng.below(u.len()); let b = c.rng.range(a, u.len()); u[a..b].to_vec() }
            // a few
            _ => { let m = c.rng.range(1, 3); (0..m).map(|_| *c.rng.pick(&u)).collect() }
        };
        ks.sort(); ks.dedup();
        out.push(ks);
    }
    let mut all = u;
    for s in &out { all.extend_from_slice(s); }
    all.sort(); all.dedup();
    (all, out)
}

/// Unique value of operand `tag` at `k`.
pub fn val(tag: usize, k: usize) -> u64 { ((tag as u64 + 1) << 56) ^ crate::rng::mix(k as u64) >> 8 }

/// A tree with exactly these keys, after a history that leaves traces if removal is imperfect.
pub fn build<T: TTree<u64>>(c: &mut Case, ks: &[usize], all: &[usize], tag: usize) -> (T, Map<R>) {
    let mut t = T::default();
    let mut order = ks.to_vec();
    if c.rng.chance(2, 3) { c.rng.shuffle(&mut order); }
    let dirty = c.rng.chance(1, 2) && !all.is_empty();
    let mut extra: Vec<usize> = vec![];
    if dirty {
        let m = c.rng.below(all.len().min(80) + 1);
        let set: std::collections::BTreeSet<usize> = ks.iter().copied().collect();
        for _ in 0..m {
            let k0 = *c.rng.pick(all);
            let k = if c.rng.chance(1, 2) { keys::near(&mut c.rng, k0, T::width(), T::depth()) } else { k0 };
            if !set.contains(&k) { extra.push(k); }
        }
        for &k in &extra { t.t_insert(k, 0xDEAD); }
    }
    for (i, &k) in order.iter().enumerate() {
        if i % 5 == 0 { *t.t_goi(k) = val(tag, k); } else { t.t_insert(k, val(tag, k)); }
    }
    for &k in &extra { t.t_remove(k); }
    if dirty && !order.is_empty() && c.rng.chance(1, 2) {
        // remove and restore some
        let m = c.rng.below(order.len().min(40) + 1);
        for _ in 0..m { let k = *c.rng.pick(&order); t.t_remove(k); t.t_insert(k, val(tag, k)); }
    }
    let m: Map<R> = ks.iter().map(|&k| (k, R(vec![val(tag, k)]))).collect();
    c.count("operands_built", 1);
    c.count("operand_elements", ks.len() as u64);
    (t, m)
}

/// n operands of one type over a shared universe.
pub fn operands<T: TTree<u64>>(c: &mut Case, n: usize, cap: usize) -> (Vec<usize>, Vec<T>, Vec<Map<R>>) {
    let (all, sets) = key_sets(c, T::width(), T::depth(), n, cap);
    let mut ts = vec![]; let mut ms = vec![];
    for (i, s) in sets.iter().enumerate() {
        let (t, m) = build::<T>(c, s, &all, i);
        c.log(|| format!("operand {i} ({} keys): {:?}", s.len(), &s[..s.len().min(60)]));
        ts.push(t); ms.push(m);
    }
    (all, ts, ms)
}

// ---- models of the operations ----
pub fn m_inter(a: &Map<R>, b: &Map<R>) -> Map<R> {
    a.iter().filter_map(|(k, x)| b.get(k).map(|y| { let mut v = x.0.clone(); v.extend_from_slice(&y.0); (*k, R(v)) })).collect()
}
fn opt(o: Option<&R>) -> Vec<u64> { match o { None => vec![0xA0A0], Some(r) => { let mut v = vec![0xA1A1]; v.extend_from_slice(&r.0); v } } }
pub fn m_union(a: &Map<R>, b: &Map<R>) -> Map<R> {
    let mut out = Map::new();
    for k in a.keys().chain(b.keys()) {
        let mut v = opt(a.get(k)); v.extend(opt(b.get(k)));
        out.insert(*k, R(v));
    }
    out
}
pub fn m_multi_inter(ms: &[Map<R>]) -> MModel {
    let Some(f) = ms.first() else { return MModel::new() };
    f.keys().filter(|k| ms.iter().all(|m| m.contains_key(k)))
        .map(|k| (*k, ms.iter().map(|m| m[k].clone()).collect())).collect()
}
pub fn m_multi_union(ms: &[Map<R>]) -> MModel {
    let mut out = MModel::new();
    for m in ms { for (k, v) in m { out.entry(*k).or_default().push(v.clone()); } }
    out
}
pub const MAP_MARK: u64 = 0x4D41_5000;
pub const FOLD_INIT: u64 = 0xF01D_0000;
pub const FOLD_MARK: u64 = 0xF01D_0001;
/// What `Enc` makes of an element.
pub fn m_map(a: &Map<R>) -> Map<R> {
    a.iter().map(|(k, v)| (*k, map_of(v))).collect()
}
pub fn map_of(v: &R) -> R { let mut o = vec![MAP_MARK]; o.extend_from_slice(&v.0); R(o) }
pub fn fold_of(vs: &[R]) -> R { let mut o = vec![FOLD_INIT]; for v in vs { o.push(FOLD_MARK); o.extend_from_slice(&v.0); } R(o) }
pub fn m_fold(a: &MModel) -> Map<R> { a.iter().map(|(k, v)| (*k, fold_of(v))).collect() }

/// Calls made to the user's functions.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call { Map(Vec<u64>), Init, Fold(Vec<u64>, Vec<u64>) }
#[derive(Default)]
pub struct Log { pub on: bool, pub calls: Vec<Call> }
thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }
pub fn log_on(on: bool) { LOG.with(|l| { let mut l = l.borrow_mut(); l.on = on; l.calls.clear(); }) }
pub fn log_take() -> Vec<Call> { LOG.with(|l| std::mem::take(&mut l.borrow_mut().calls)) }
fn log(f: impl FnOnce() -> Call) { LOG.with(|l| { let mut l = l.borrow_mut(); if l.on { let c = f(); l.calls.push(c); } }) }

/// map function: encodes whatever it is given.
#[derive(Clone, Copy)]
pub struct Enc;
impl<A: Repr> UnaryFunction<A> for Enc {
    type Output = R;
    fn exec(&self, a: A) -> R { crate::vals::tick(); let v = enc(&a); log(|| Call::Map(v.clone())); map_of(&R(v)) }
}
/// map function that returns what it is given (keeps references).
#[derive(Clone, Copy)]
pub struct Ident;
impl<A> UnaryFunction<A> for Ident { type Output = A; fn exec(&self, a: A) -> A { a } }
#[derive(Clone, Copy)]
pub struct Init;
impl NullaryFunction for Init { type Output = R; fn exec(&self) -> R { crate::vals::tick(); log(|| Call::Init); R(vec![FOLD_INIT]) } }
/// order-sensitive fold function.
#[derive(Clone, Copy)]
pub struct FoldEnc;
impl<A: Repr> BinaryFunction<R, A> for FoldEnc {
    type Output = R;
    fn exec(&self, mut acc: R, a: A) -> R {
        crate::vals::tick();
        log(|| Call::Fold(acc.0.clone(), enc(&a)));
        acc.0.push(FOLD_MARK); a.repr(&mut acc.0); acc
    }
}

// ---- expressions: (tree, model) pairs ----
#[macro_export]
macro_rules! e_ref { ($ts:expr, $ms:expr, $i:expr) => { (&$ts[$i], $ms[$i].clone()) }; }
#[macro_export]
macro_rules! e_inter { ($a:expr, $b:expr) => {{ let (a, ma) = $a; let (b, mb) = $b; (hibit_tree::intersection(a, b), $crate::gen::m_inter(&ma, &mb)) }}; }
#[macro_export]
macro_rules! e_union { ($a:expr, $b:expr) => {{ let (a, ma) = $a; let (b, mb) = $b; (hibit_tree::union(a, b), $crate::gen::m_union(&ma, &mb)) }}; }
#[macro_export]
macro_rules! e_map { ($a:expr) => {{ let (a, ma) = $a; (hibit_tree::map(a, $crate::gen::Enc), $crate::gen::m_map(&ma)) }}; }
#[macro_export]
macro_rules! e_id { ($a:expr) => {{ let (a, ma) = $a; (hibit_tree::map(a, $crate::gen::Ident), ma) }}; }
/// over slices of trees and models
#[macro_export]
macro_rules! e_munion { ($ts:expr, $ms:expr) => { (hibit_tree::multi_union(($ts).iter()), $crate::gen::m_multi_union(&($ms)[..])) }; }
#[macro_export]
macro_rules! e_minter { ($ts:expr, $ms:expr) => { (hibit_tree::multi_intersection(($ts).iter()), $crate::gen::m_multi_inter(&($ms)[..])) }; }
#[macro_export]
macro_rules! e_fold { ($a:expr) => {{ let (a, ma) = $a; (hibit_tree::multi_map_fold(a, $crate::gen::Init, $crate::gen::FoldEnc), $crate::gen::m_fold(&ma)) }}; }

/// One expression of the zoo over operands `$a` (Vec of one type, >= 4) and `$b` (Vec of a type of equal
/// shape, >= 3). `$v!(name, tree, model)` is expanded for the arm `$pick`.
#[macro_export]
macro_rules! zoo {
    ($pick:expr, $a:ident, $ma:ident, $b:ident, $mb:ident, $v:ident) => { match $pick {
        0 => { let (t, m) = e_inter!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)); $v!("a&b", t, m) }
        1 => { let (t, m) = e_union!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)); $v!("a|b", t, m) }
        2 => { let (t, m) = e_map!(e_ref!($a, $ma, 0)); $v!("map a", t, m) }
        3 => { let (t, m) = e_fold!(e_munion!(&$a[..], &$ma)); $v!("fold munion", t, m) }
        4 => { let (t, m) = e_fold!(e_minter!(&$a[..3], &$ma[..3])); $v!("fold minter", t, m) }
        5 => { let (t, m) = e_union!(e_inter!(e_ref!($a, $ma, 0), e_ref!($a, $ma, 1)), e_ref!($b, $mb, 0)); $v!("(a&a)|b", t, m) }
        6 => { let (t, m) = e_inter!(e_union!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 1)), e_union!(e_ref!($a, $ma, 2), e_ref!($b, $mb, 2))); $v!("(a|b)&(a|b)", t, m) }
        7 => { let (t, m) = e_union!(e_inter!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)), e_inter!(e_ref!($a, $ma, 1), e_ref!($b, $mb, 1))); $v!("(a&b)|(a&b)", t, m) }
        8 => { let (t, m) = e_map!(e_inter!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0))); $v!("map(a&b)", t, m) }
        9 => { let (t, m) = e_inter!(e_map!(e_ref!($a, $ma, 0)), e_map!(e_ref!($b, $mb, 0))); $v!("map a & map b", t, m) }
        10 => { let (t, m) = e_union!(e_map!(e_union!(e_ref!($a, $ma, 0), e_ref!($a, $ma, 1))), e_ref!($b, $mb, 0)); $v!("map(a|a)|b", t, m) }
        11 => {
            let x: (Vec<_>, Vec<_>) = (0..$a.len()).map(|i| e_inter!(e_ref!($a, $ma, i), e_ref!($b, $mb, i % $b.len()))).unzip();
            let (t, m) = e_fold!(e_munion!(&x.0[..], &x.1)); $v!("fold munion(a&b ..)", t, m)
        }
        12 => {
            let x: (Vec<_>, Vec<_>) = (0..3).map(|i| e_union!(e_ref!($a, $ma, i), e_ref!($b, $mb, i % $b.len()))).unzip();
            let (t, m) = e_fold!(e_minter!(&x.0[..], &x.1)); $v!("fold minter(a|b ..)", t, m)
        }
        13 => {
            let x: (Vec<_>, Vec<_>) = (0..3).map(|i| e_inter!(e_ref!($a, $ma, i), e_ref!($b, $mb, i % $b.len()))).unzip();
            let (t, m) = e_fold!(e_minter!(&x.0[..], &x.1)); $v!("fold minter(a&b ..)", t, m)
        }
        14 => { let (t, m) = e_inter!(e_fold!(e_munion!(&$a[..2], &$ma[..2])), e_fold!(e_munion!(&$b[..], &$mb))); $v!("fold(munion a)&fold(munion b)", t, m) }
        15 => { let (t, m) = e_union!(e_fold!(e_minter!(&$a[..2], &$ma[..2])), e_fold!(e_minter!(&$b[..2], &$mb[..2]))); $v!("fold(minter a)|fold(minter b)", t, m) }
        16 => { let (t, m) = e_union!(e_union!(e_union!(e_ref!($a, $ma, 0), e_ref!($a, $ma, 1)), e_ref!($a, $ma, 2)), e_ref!($b, $mb, 0)); $v!("((a|a)|a)|b", t, m) }
        17 => { let (t, m) = e_inter!(e_inter!(e_ref!($a, $ma, 0), e_ref!($a, $ma, 1)), e_inter!(e_ref!($b, $mb, 0), e_ref!($a, $ma, 2))); $v!("(a&a)&(b&a)", t, m) }
        18 => {
            let x: (Vec<_>, Vec<_>) = (0..3).map(|i| e_map!(e_union!(e_ref!($a, $ma, i), e_inter!(e_ref!($a, $ma, i + 1), e_ref!($b, $mb, i % $b.len()))))).unzip();
            let (t, m) = e_map!(e_union!(e_fold!(e_munion!(&x.0[..], &x.1)), e_fold!(e_minter!(&x.0[..2], &x.1[..2])))); $v!("map(fold munion(map(a|(a&b))) | fold minter(..))", t, m)
        }
        19 => { let (t, m) = e_id!(e_inter!(e_ref!($a, $ma, 0), e_id!(e_ref!($b, $mb, 0)))); $v!("id(a & id b)", t, m) }
        20 => {
            let x: (Vec<_>, Vec<_>) = (0..3).map(|i| e_fold!(e_munion!(&$a[i..i + 2], &$ma[i..i + 2]))).unzip();
            let (t, m) = e_fold!(e_minter!(&x.0[..], &x.1)); $v!("fold minter(fold munion ..)", t, m)
        }
        _ => {
            let x: (Vec<_>, Vec<_>) = (0..3).map(|i| e_fold!(e_minter!(&$a[i..i + 2], &$ma[i..i + 2]))).unzip();
            let (t, m) = e_fold!(e_munion!(&x.0[..], &x.1)); $v!("fold munion(fold minter ..)", t, m)
        }
    } };
}
pub const ZOO: usize = 22;

/// n operands of type A and m of type B, of one shape, over one universe.
pub fn two_kinds<A: TTree<u64>, B: TTree<u64>>(c: &mut Case, cap: usize, n: usize, m: usize)
    -> (Vec<usize>, Vec<A>, Vec<Map<R>>, Vec<B>, Vec<Map<R>>)
{
    assert!(A::width() == B::width() && A::depth() == B::depth());
    let (all, sets) = key_sets(c, A::width(), A::depth(), n + m, cap);
    let mut a: Vec<A> = vec![]; let mut ma = vec![];
    let mut b: Vec<B> = vec![]; let mut mb = vec![];
    for i in 0..n { let (t, m) = build::<A>(c, &sets[i], &all, i); a.push(t); ma.push(m); }
    for i in n..n + m { let (t, m) = build::<B>(c, &sets[i], &all, i); b.push(t); mb.push(m); }
    for (i, s) in sets.iter().enumerate() { c.log(|| format!("operand {i} ({} keys): {:?}", s.len(), &s[..s.len().min(60)])); }
    (all, a, ma, b, mb)
}
