// How much work operations do: operands of types A and B (equal shape) that count what they are asked for.
use hh::checks::*;
use hh::dynt::*;
use hh::gen::*;
use hh::meter::Meter;
use hh::repr::R;
use hh::run::*;
use hh::trees::*;
use hh::*;
#[allow(unused_imports)] use hibit_tree::LazyHibitTree;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, HibitTree, RegularHibitTree};
use std::collections::{BTreeMap, BTreeSet};
type MA = Meter<A>;
type MB = Meter<B>;
fn w() -> usize { <A as TTree<u64>>::width() }
fn d() -> usize { <A as TTree<u64>>::depth() }
/// Nodes of a level: the leading digits of the indices. Level d: the indices themselves.
fn prefixes(ks: &BTreeSet<usize>, l: usize) -> BTreeSet<usize> {
    let sh = (w().trailing_zeros() as usize * (d() - l)) as u32;
    if l == 0 { return [0].into() } // every tree has a root
    ks.iter().map(|k| k.checked_shr(sh).unwrap_or(0)).collect()
}
fn as_model(s: &BTreeSet<usize>) -> RM { s.iter().map(|k| (*k, R(vec![1]))).collect() }
/// Index sets, mostly lopsided: large ones beside small ones, with and without common nodes.
fn sets(c: &mut Case, n: usize) -> Vec<BTreeSet<usize>> {
    let cap = c.sz(60, 1500);
    let big = keys::universe(&mut c.rng, w(), d(), cap);
    let end = range_end(w(), d());
    (0..n).map(|i| match if i == 0 { c.rng.below(5) } else { c.rng.below(9) } {
        0 => big.iter().copied().collect(),
        1 => keys::subset(&mut c.rng, &big, 9, 10).into_iter().collect(),
        // large, wherever
        2 => { let m = c.sz(20, 800); (0..m).map(|_| c.rng.below(end)).collect() }
        3 => keys::subset(&mut c.rng, &big, 1, 2).into_iter().collect(),
        // shares some level of the large ones only
        4 => { let l = c.rng.below(d()); let s = c.rng.range(1, w() - 1);
               big.iter().map(|k| { let mut g = digits(*k, w(), d()); g[l] = (g[l] + s) % w(); undigits(&g, w()) }).collect() }
        // small
        5 => { let m = c.rng.range(1, 4); (0..m).map(|_| *c.rng.pick(&big)).collect() }
        6 => { let m = c.rng.range(1, 4); (0..m).map(|_| { let k = *c.rng.pick(&big); keys::near(&mut c.rng, k, w(), d()) }).collect() }
        7 => keys::subset(&mut c.rng, &big, 1, 40).into_iter().collect(),
        _ => if c.rng.chance(1, 3) { BTreeSet::new() } else { let m = c.rng.range(1, 8); (0..m).map(|_| c.rng.below(end)).collect() },
    }).collect()
}
#[allow(dead_code)]
fn tree<T: TTree<u64>>(ks: &BTreeSet<usize>, c: &mut Case) -> T {
    let mut t = T::default();
    let mut v: Vec<usize> = ks.iter().copied().collect();
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut v) }
    for k in v { t.t_insert(k, k as u64); }
    t
}
/// How often the operands were asked for nodes and elements since the last time.
struct Meters<'a> { a: &'a [MA], b: &'a [MB] }
impl Meters<'_> {
    fn reset(&self) { self.a.iter().for_each(Meter::reset); self.b.iter().for_each(Meter::reset); }
    fn each(&self) -> Vec<(u64, u64)> { self.a.iter().map(|m| (m.nodes.get(), m.data.get())).chain(self.b.iter().map(|m| (m.nodes.get(), m.data.get()))).collect() }
    fn sum(&self) -> (u64, u64) { self.each().iter().fold((0, 0), |s, x| (s.0 + x.0, s.1 + x.1)) }
}
/// Generous: twice and a half of what each place deserves, and the path to it.
fn limit(occ: u64, things: usize) -> u64 { occ * (things as u64 * 5 / 2 + 4 * d() as u64 + 4) }
/// What a lazy tree may ask of all its operands together (`occ` occurrences); `nodes`: nodes of the expression per level.
struct Bounds { occ: u64, nodes: Vec<BTreeSet<usize>>, keys: BTreeSet<usize> }
impl Bounds {
    fn nodes(&self) -> usize { self.nodes.iter().map(|s| s.len()).sum() }
    /// nodes up to and including those above index k
    fn nodes_to(&self, k: usize) -> usize {
        (0..d()).map(|l| { let p = k.checked_shr((w().trailing_zeros() as usize * (d() - l)) as u32).unwrap_or(0); self.nodes[l].range(..=if l == 0 { 0 } else { p }).count() }).sum()
    }
}
fn judge<T: RegularHibitTree>(c: &mut Case, what: &str, t: &T, m: &Meters, b: &Bounds) {
    c.label = format!("{what} over {} and {}", <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
    c.log(|| format!("{} nodes, {} elements", b.nodes(), b.keys.len()));
    let mut most = 0u64;
    let mut over = |c: &mut Case, how: &str, nodes: usize, data: usize| {
        let (n, x) = m.sum();
        let (ln, lx) = (limit(b.occ, nodes), limit(b.occ, data));
        check!(n <= ln, "{what}: {how} selected {n} nodes of its operands ({:?}), with {} operands and {nodes} nodes that it has there", m.each().iter().map(|x| x.0).collect::<Vec<_>>(), b.occ);
        check!(x <= lx, "{what}: {how} read {x} elements of its operands ({:?}), with {} operands and {data} elements that it has there", m.each().iter().map(|x| x.1).collect::<Vec<_>>(), b.occ);
        c.count("nodes_selected", n); c.count("elements_read", x); c.count("evaluations_metered", 1);
        most = most.max(n * 1000 / ln.max(1)).max(x * 1000 / lx.max(1));
    };
    // everything
    for lending in [false, true] {
        m.reset();
        let mut n = 0;
        if lending { let mut it = HibitTree::iter(t); while hibit_tree::utils::LendingIterator::next(&mut it).is_some() { n += 1 } } else { n = HibitTree::iter(t).count() }
        check!(n == b.keys.len(), "{what}: iteration yields {n} elements of {}", b.keys.len());
        over(c, "a complete iteration", b.nodes(), b.keys.len());
    }
    // the beginning
    for _ in 0..3 {
        let n = c.rng.below(b.keys.len() + 1).min(1 + c.rng.below(20));
        m.reset();
        let last = HibitTree::iter(t).take(n).map(|x| x.0).last();
        if let Some(k) = last {
            // the next element's node may be entered, not more
            over(c, &format!("taking {n} elements"), b.nodes_to(k), n);
        }
    }
    m.reset();
    let _it = HibitTree::iter(t);
    let _cur = <T as hibit_tree::HibitTreeTypes>::Cursor::new_of(t);
    over(c, "creating an iterator and a cursor", 0, 0);
    // single elements, one path each
    for _ in 0..c.sz(4, 12) {
        let k = if b.keys.is_empty() || c.rng.chance(1, 3) { c.rng.below(range_end(w(), d())) } else { let v: Vec<usize> = b.keys.iter().copied().collect(); *c.rng.pick(&v) };
        m.reset();
        let g = t.get(k).is_some();
        check!(g == b.keys.contains(&k), "{what}: get({k}) finds {g}");
        over(c, &format!("get({k})"), d(), 1);
        if g { m.reset(); unsafe { t.get_unchecked(k); } over(c, &format!("get_unchecked({k})"), d(), 1); }
        m.reset();
        let mut cur = CurW::<T>(<T as hibit_tree::HibitTreeTypes>::Cursor::new_of(t), t);
        let dg = digits(k, w(), d());
        unsafe { cur.select(0, 0, false); for l in 1..d() { cur.select(l, dg[l - 1], false); } cur.0.data_of(t, dg[d() - 1]); }
        over(c, &format!("a cursor at {k}"), d(), 1);
    }
    if std::env::var_os("METER").is_some() { eprintln!("METER {most} {what}"); }
    c.state_if(b.nodes() > 1, rng::mix2(b.keys.iter().fold(what.len() as u64, |h, k| rng::mix2(h, *k as u64)), b.nodes() as u64));
}
trait NewOf<T> { fn new_of(t: T) -> Self; }
impl<'a, T: HibitTree, C: hibit_tree::HibitTreeCursor<'a, Src = T>> NewOf<&'a T> for C { fn new_of(t: &'a T) -> Self { C::new(t) } }
trait DataOf<'a, T> { unsafe fn data_of(&self, t: &'a T, i: usize) -> bool; }
impl<'a, T: HibitTree, C: hibit_tree::HibitTreeCursor<'a, Src = T>> DataOf<'a, T> for C { unsafe fn data_of(&self, t: &'a T, i: usize) -> bool { self.data(t, i).is_some() } }

/// occurrences of operands in each expression of the zoo over five a and three b
const OCC: [u64; ZOO] = [2, 2, 1, 5, 3, 3, 4, 4, 2, 2, 3, 10, 6, 6, 5, 4, 4, 4, 15, 2, 6, 6];
fn zoo_work(c: &mut Case) {
    let s = sets(c, 8);
    let a: Vec<MA> = s[..5].iter().map(|k| tree(k, c)).collect();
    let b: Vec<MB> = s[5..].iter().map(|k| tree(k, c)).collect();
    let pick = c.no % ZOO;
    let mut levels: Vec<BTreeSet<usize>> = vec![];
    for l in 0..=d() {
        let p: Vec<RM> = s.iter().map(|k| as_model(&if l < d() { prefixes(k, l) } else { k.clone() })).collect();
        let (ma, mb) = (p[..5].to_vec(), p[5..].to_vec());
        macro_rules! v { ($n:expr, $t:expr, $m:expr) => {{
            levels.push($m.keys().copied().collect());
            if l == d() {
                let keys = levels.pop().unwrap();
                let t = $t;
                judge(c, $n, &t, &Meters { a: &a, b: &b }, &Bounds { occ: OCC[pick], nodes: std::mem::take(&mut levels), keys });
            }
        }} }
        zoo!(pick, a, ma, b, mb, v);
    }
}
/// Each operand by itself: an operand of an intersection is asked only where all others have nodes too, however many it has itself; an operand of a union only for what the union has, of a multi_union only for what the union has right below nodes of the operand.
fn each_work(c: &mut Case) {
    let n = if c.no % 6 < 2 { 2 } else { *c.rng.pick(&[1, 2, 3, 5, 16, 32]) };
    let s = sets(c, n);
    let a: Vec<MA> = s.iter().map(|k| tree(k, c)).collect();
    let m = Meters { a: &a, b: &[] };
    let own: Vec<usize> = s.iter().map(|k| (0..d()).map(|l| prefixes(k, l).len()).sum()).collect();
    let all = |l: usize| -> BTreeSet<usize> { s.iter().map(|k| if l < d() { prefixes(k, l) } else { k.clone() }).reduce(|x, y| x.intersection(&y).copied().collect()).unwrap() };
    let any = |l: usize| -> BTreeSet<usize> { s.iter().flat_map(|k| if l < d() { prefixes(k, l) } else { k.clone() }).collect() };
    let both: (usize, usize) = ((0..d()).map(|l| all(l).len()).sum(), all(d()).len());
    let either: (usize, usize) = ((0..d()).map(|l| any(l).len()).sum(), any(d()).len());
    // what the union has right below nodes of the operand
    let sh = w().trailing_zeros();
    let below: Vec<Vec<usize>> = s.iter().map(|k| (0..=d()).map(|l| if l == 0 { 1 } else { let up = prefixes(k, l - 1); any(l).iter().filter(|p| up.contains(&if l == 1 { 0 } else { **p >> sh })).count() }).collect()).collect();
    let what = ["intersection", "union", "multi_intersection", "multi_union", "multi_map_fold(multi_intersection)", "multi_map_fold(multi_union)"][c.no % 6];
    c.label = format!("{what} of {n} over {}", <A as TTree<u64>>::name());
    m.reset();
    macro_rules! all_of { ($t:expr) => {{ let t = $t; let mut it = HibitTree::iter(&t); let mut k = 0; while let Some((_, x)) = hibit_tree::utils::LendingIterator::next(&mut it) { k += 1; std::hint::black_box(x); } k }} }
    macro_rules! all_multi { ($t:expr) => {{ let t = $t; let mut it = HibitTree::iter(&t); let mut k = 0; while let Some((_, x)) = hibit_tree::utils::LendingIterator::next(&mut it) { k += 1; std::hint::black_box(x.count()); } k }} }
    let init = || 0u64; let f = |s: u64, x: &u64| s ^ *x;
    let k = match c.no % 6 {
        0 => all_of!(intersection(&a[0], &a[1])),
        1 => all_of!(union(&a[0], &a[1])),
        2 => all_multi!(multi_intersection(a.iter())),
        3 => all_multi!(multi_union(a.iter())),
        4 => all_of!(multi_map_fold(multi_intersection(a.iter()), init, f)),
        _ => all_of!(multi_map_fold(multi_union(a.iter()), init, f)),
    };
    let (inter, multi) = (c.no % 2 == 0, c.no % 6 > 1);
    check!(k == if inter { both.1 } else { either.1 }, "{what}: iteration yields {k} elements");
    for (i, (nodes, data)) in m.each().into_iter().enumerate() {
        let (ln, ld) = if inter { both } else if multi { (below[i][..d()].iter().sum(), below[i][d()]) } else { either };
        check!(nodes <= limit(1, ln), "{what} of {n}: operand {i} (of {} nodes) was asked for {nodes} nodes, where {ln} matter", own[i]);
        check!(data <= limit(1, ld), "{what} of {n}: operand {i} (of {} elements) was asked for {data} elements, where {ld} matter", s[i].len());
        c.count("nodes_selected", nodes); c.count("elements_read", data); c.count("operands_metered", 1);
        if std::env::var_os("METER").is_some() { eprintln!("METER {} {what} each", (nodes * 1000 / limit(1, ln)).max(data * 1000 / limit(1, ld))); }
    }
    c.count("nodes_of_operands", own.iter().sum::<usize>() as u64);
    c.state_if(both.0 + either.0 > 2, s.iter().flatten().fold((c.no % 6) as u64, |h, k| rng::mix2(h, *k as u64)));
}

if_materializes! {
/// materialize goes over its operands once, and asks for memory in proportion to the result.
fn mat_work(c: &mut Case) {
    let s = sets(c, 2);
    let a: Vec<MA> = vec![tree(&s[0], c)];
    let b: Vec<MB> = vec![tree(&s[1], c)];
    let m = Meters { a: &a, b: &b };
    let calls = std::cell::Cell::new(0usize);
    let level = |l: usize| -> BTreeSet<usize> {
        let (x, y) = if l < d() { (prefixes(&s[0], l), prefixes(&s[1], l)) } else { (s[0].clone(), s[1].clone()) };
        match c.no % 3 { 0 => x, 1 => x.intersection(&y).copied().collect(), _ => x.union(&y).copied().collect() }
    };
    let nodes: usize = (0..d()).map(|l| level(l).len()).sum();
    let keys = level(d());
    let what = ["map a", "map(a & b)", "map(a | b)"][c.no % 3];
    c.label = format!("materialized {what} over {}", <A as TTree<u64>>::name());
    m.reset();
    let r0 = alloc::requested();
    let f = |x: u64| { calls.set(calls.get() + 1); x };
    let n = match c.no % 3 {
        0 => map(&a[0], |x: &u64| f(*x)).materialize::<M>().key_values().0.len(),
        1 => map(intersection(&a[0], &b[0]), |x: (&u64, &u64)| f(*x.0 ^ *x.1)).materialize::<M>().key_values().0.len(),
        _ => map(union(&a[0], &b[0]), |x: (Option<&u64>, Option<&u64>)| f(x.0.copied().unwrap_or(0) ^ x.1.copied().unwrap_or(0))).materialize::<M>().key_values().0.len(),
    };
    check!(n == keys.len(), "materializing {what} gives {n} elements of {}", keys.len());
    let asked = alloc::requested() - r0;
    let (n, x) = m.sum();
    check!(n <= limit(1 + (c.no % 3 > 0) as u64, nodes), "materializing {what} selected {n} nodes of its operands, where it has {nodes}");
    check!(x <= limit(1 + (c.no % 3 > 0) as u64, keys.len()), "materializing {what} read {x} elements of its operands, where it has {}", keys.len());
    check!(calls.get() <= keys.len(), "materializing {what} called the function {} times for {} elements", calls.get(), keys.len());
    check!(asked <= 1 << 16 | (nodes * 4096 + keys.len() * 256), "materializing {what} of {nodes} nodes and {} elements asked for {asked} bytes", keys.len());
    if std::env::var_os("METER").is_some() { eprintln!("METER {} materialize {what}", (n * 1000 / limit(2, nodes)).max(x * 1000 / limit(2, keys.len())).max(asked as u64 * 1000 / (1 << 16 | (nodes * 4096 + keys.len() * 256)) as u64)); }
    c.count("nodes_selected", n); c.count("elements_read", x); c.count("materializations_metered", 1);
    c.state_if(nodes > d(), keys.iter().fold(0x77 + c.no as u64 % 3, |h, k| rng::mix2(h, *k as u64)));
}
}

pub const SC: &[Scenario] = &[("work_zoo", 110, zoo_work), ("work_each", 90, each_work), ("work_materialize", 30, mat_work)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
