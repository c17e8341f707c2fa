// Materialization of lazy expressions into DenseTree of depth D, and what becomes of the new tree.
use hh::cases as cs;
use hh::checks::*;
use hh::cont::Cont;
use hh::dynt::*;
use hh::gen::*;
use hh::hist::Hist;
use hh::histcases::verify_all;
use hh::repr::{enc, Repr, R};
use hh::rng::mix2;
use hh::run::*;
#[allow(unused)] use hh::trees::*;
use hh::vals::{clear_fuse, faults, live_ids, reset_ledger, set_fuse, tick, Big, Boxed, Tracked, Val, Zst};
use hh::*;
use hibit_tree::utils::UnaryFunction;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, DenseTree, FromHibitTree, HibitTree, LazyHibitTree};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Out<V> = DenseTree<V, D>;
struct Ops { all: Vec<usize>, a: Vec<A>, ma: Vec<RM>, b: Vec<B>, mb: Vec<RM> }
fn ops(c: &mut Case, cap: usize) -> Ops {
    let (all, a, ma, b, mb) = two_kinds::<A, B>(c, cap, 4, 3);
    Ops { all, a, ma, b, mb }
}
fn cap(c: &mut Case) -> usize { if c.scale == 0 { 16 } else { *c.rng.pick(&[12, 60, 160, 400]) } }
fn salt(pick: usize) -> u64 { (D * 256 + pick) as u64 }
thread_local! { static SEEN: RefCell<Vec<Vec<u64>>> = const { RefCell::new(vec![]) }; }
/// Encodes, and notes every call.
#[derive(Clone, Copy)]
struct Note;
impl<X: Repr> UnaryFunction<X> for Note {
    type Output = R;
    fn exec(&self, x: X) -> R { let v = enc(&x); SEEN.with(|s| s.borrow_mut().push(v.clone())); map_of(&R(v)) }
}
/// The value of an element as one number.
fn num(v: &[u64]) -> u64 { let mut h = 1; for x in v { h = mix2(h, *x); } h | 1 }
struct Num;
impl<X: Repr> UnaryFunction<X> for Num { type Output = u64; fn exec(&self, x: X) -> u64 { num(&enc(&x)) } }
struct Make<V>(std::marker::PhantomData<V>);
impl<X: Repr, V: Val> UnaryFunction<X> for Make<V> { type Output = V; fn exec(&self, x: X) -> V { tick(); V::make(num(&enc(&x)) >> 1) } }

fn judge(c: &mut Case, what: &str, all: &[usize], t: &dyn Reg, keys: &[usize], vals: &[R], m: &RM, s: u64) {
    check_kv(c, keys, vals, m);
    let n = c.sz(10, 40);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), n);
    check!(t.exact(), "{what}: the new tree does not claim exact masks");
    check_all(c, t, m, &p, if c.scale == 0 { 5 } else { 20 });
    check_iter_mix(c, t, m, if c.scale == 0 { 10 } else { 30 });
    c.count("materialized", 1);
    c.count("materialized_elements", m.len() as u64);
    c.state_if(!m.is_empty(), shape_hash(m, s));
}
/// materialize() and FromHibitTree, of the expression mapped to owned values.
fn mat_zoo(c: &mut Case) {
    let n = cap(c);
    let o = ops(c, n);
    let pick = c.no % ZOO;
    let api = c.no / ZOO % 2;
    let Ops { all, a, ma, b, mb } = &o;
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("materialize({}) of depth {D}", $n);
        c.log(|| format!("{}: {} elements", $n, $m.len()));
        let want = m_map(&$m);
        SEEN.with(|s| s.borrow_mut().clear());
        let t: Out<R> = match api {
            0 => Out::<R>::from_sparse_hierarchy(map(&$t, Note)),
            _ => map($t, Note).materialize::<Out<R>>(), // the operand is consumed
        };
        let mut got = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let mut exp: Vec<Vec<u64>> = $m.values().map(|r| r.0.clone()).collect();
        got.sort(); exp.sort();
        check!(got == exp, "materialize called the mapping function {} times for {} elements, or not with their values", got.len(), exp.len());
        c.count("calls_logged", got.len() as u64);
        let (k, v) = t.key_values();
        judge(c, $n, all, &t, k, v, &want, salt(pick));
        // the operands are what they were
        for (t, m) in a.iter().zip(ma) { check_iter(c, t, m); }
        for (t, m) in b.iter().zip(mb) { check_iter(c, t, m); }
    }} }
    zoo!(pick, a, ma, b, mb, v)
}
/// A function that materializes other expressions while the one it belongs to is being materialized.
fn mat_reent(c: &mut Case) {
    let n = c.sz(8, 60);
    let o = ops(c, n);
    let pick = c.no % ZOO;
    let Ops { all, a, ma, b, mb } = &o;
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("materialize({}) of depth {D}, from within whose function others are materialized", $n);
        let want = m_map(&$m);
        let (calls, done) = (Cell::new(0u64), Cell::new(0u64));
        let (exact, hollow) = (m_map(&ma[0]), m_map(&m_inter(&ma[1], &mb[0])));
        let nosy = || {
            calls.set(calls.get() + 1);
            if done.get() >= 8 || calls.get() % (1 + done.get() * 3) != 0 { return }
            done.set(done.get() + 1);
            let (t, m): (Out<R>, &RM) = if done.get() % 2 == 0 { (map(&a[0], Enc).materialize(), &exact) } else { (map(intersection(&a[1], &b[0]), Enc).materialize(), &hollow) };
            let mut it = m.iter();
            for (k, v) in HibitTree::iter(&t) { let w = it.next(); check!(w == Some((&k, v)), "a tree materialized from within a function of another materialization has {v:x?} at {k}, expected {w:x?}") }
            check!(it.next().is_none(), "a tree materialized from within a function of another materialization lacks elements");
        };
        let mut made = None;
        hh::vals::with_reentry(&nosy, || made = Some(map($t, Enc).materialize::<Out<R>>()));
        let t = made.unwrap();
        let (k, v) = t.key_values();
        judge(c, $n, all, &t, k, v, &want, salt(pick));
        c.count("materialized_within", done.get());
    }} }
    zoo!(pick, a, ma, b, mb, v)
}
/// Without a map around it: expressions whose own values are owned, and closures.
fn mat_plain(c: &mut Case) {
    let n = cap(c);
    let o = ops(c, n);
    let Ops { all, a, ma, b, mb } = &o;
    let pick = c.no % 12;
    macro_rules! go { ($n:literal, $t:expr, $m:expr) => {{
        c.label = format!("materialize({}) of depth {D}", $n);
        let m: RM = $m;
        let t = $t;
        let (k, v) = t.key_values();
        judge(c, $n, all, &t, k, v, &m, salt(100 + pick));
    }} }
    macro_rules! word { ($n:literal, $t:expr, $m:expr) => {{
        c.label = format!("materialize({}) of depth {D}", $n);
        let m: RM = $m;
        let t: Out<u64> = $t;
        let (k, v) = t.key_values();
        let v: Vec<R> = v.iter().map(|x| R(vec![*x])).collect();
        judge(c, $n, all, &t, k, &v, &m, salt(100 + pick));
    }} }
    match pick {
        0 => go!("fold munion", multi_map_fold(multi_union(a.iter()), Init, FoldEnc).materialize::<Out<R>>(), m_fold(&m_multi_union(ma))),
        1 => go!("fold minter", multi_map_fold(multi_intersection(a[..2].iter()), Init, FoldEnc).materialize::<Out<R>>(), m_fold(&m_multi_inter(&ma[..2]))),
        2 => word!("map a, closure", map(&a[0], |v: &u64| *v).materialize(), ma[0].clone()),
        3 => word!("map b, closure", Out::<u64>::from_sparse_hierarchy(map(&b[0], |v: &u64| *v ^ 9)), mb[0].iter().map(|(k, v)| (*k, R(vec![v.0[0] ^ 9]))).collect()),
        4 => word!("a & b, closure", map(intersection(&a[0], &b[0]), |(x, y): (&u64, &u64)| x ^ y).materialize(),
            m_inter(&ma[0], &mb[0]).iter().map(|(k, v)| (*k, R(vec![v.0[0] ^ v.0[1]]))).collect()),
        5 => word!("a | b, closure", map(union(&a[0], &b[0]), |(x, y): (Option<&u64>, Option<&u64>)| x.copied().unwrap_or(3).wrapping_mul(5) ^ y.copied().unwrap_or(1)).materialize(),
            m_union(&ma[0], &mb[0]).keys().map(|k| (*k, R(vec![ma[0].get(k).map(|v| v.0[0]).unwrap_or(3).wrapping_mul(5) ^ mb[0].get(k).map(|v| v.0[0]).unwrap_or(1)]))).collect()),
        6 => word!("multi_union.fold, closure", multi_map_fold(multi_union(a.iter()), || 1u64, |s: u64, v: &u64| s.wrapping_mul(31).wrapping_add(*v)).materialize(),
            m_multi_union(ma).iter().map(|(k, v)| (*k, R(vec![v.iter().fold(1u64, |s, x| s.wrapping_mul(31).wrapping_add(x.0[0]))]))).collect()),
        7 => word!("empty, exact", map(A::default(), |v: &u64| *v).materialize(), RM::new()),
        8 => word!("empty, not exact", map(intersection(&a[0], B::default()), |(x, _): (&u64, &u64)| *x).materialize(), RM::new()),
        9 => word!("union of empty ones", map(union(A::default(), B::default()), |_: (Option<&u64>, Option<&u64>)| 1u64).materialize(), RM::new()),
        10 => go!("no operands, munion", multi_map_fold(multi_union(a[..0].iter()), Init, FoldEnc).materialize::<Out<R>>(), RM::new()),
        _ => go!("no operands, minter", multi_map_fold(multi_intersection(a[..0].iter()), Init, FoldEnc).materialize::<Out<R>>(), RM::new()),
    }
}
/// Intersections that share nodes at some level and nothing below it.
fn mat_hollow(c: &mut Case) {
    let n = cap(c);
    let u = keys::universe(&mut c.rng, 64, D, n);
    let l = c.rng.below(D);
    // complementary digits at level l, a few common indices
    let side = |s: usize| -> Vec<usize> { u.iter().copied().filter(|k| digits(*k, 64, D)[l] % 2 == s).collect() };
    let (mut x, mut y) = (side(0), side(1));
    let common = if c.rng.chance(1, 3) { 0 } else { c.rng.below(6) };
    for _ in 0..common { let k = *c.rng.pick(&u); x.push(k); y.push(k); }
    x.sort(); x.dedup(); y.sort(); y.dedup();
    let (ta, ma) = build::<A>(c, &x, &u, 0);
    let (tb, mb) = build::<B>(c, &y, &u, 1);
    c.label = format!("materialize(hollow a & b) of depth {D}, split at level {l}");
    let m = m_inter(&ma, &mb);
    let t: Out<R> = map(intersection(&ta, &tb), Enc).materialize();
    let (k, v) = t.key_values();
    judge(c, "hollow a & b", &u, &t, k, v, &m_map(&m), salt(150 + l));
    // the union with something brings nothing back
    let e = A::default();
    let t: Out<R> = map(union(intersection(&ta, &tb), &e), Enc).materialize();
    let (k, v) = t.key_values();
    let m2 = m_map(&m_union(&m, &RM::new()));
    judge(c, "hollow (a & b) | empty", &u, &t, k, v, &m2, salt(160 + l));
    let p = [intersection(&ta, &tb), intersection(&ta, &tb)];
    let t: Out<R> = multi_map_fold(multi_union(p.iter()), Init, FoldEnc).materialize();
    let (k, v) = t.key_values();
    let m3 = m_fold(&m_multi_union(&[m.clone(), m.clone()]));
    judge(c, "hollow munion(a & b, a & b)", &u, &t, k, v, &m3, salt(170 + l));
    c.count("hollow", 1);
}
/// Many elements.
fn mat_long(c: &mut Case) { let n = c.sz(100, 12_000); long(c, n) }
fn mat_huge(c: &mut Case) { let n = c.sz(100, if c.no > 1 { 1_150_000 } else { 140_000 }); long(c, n) }
fn long(c: &mut Case, n: usize) {
    let end = range_end(64, D);
    let n = n.min(end);
    let start = if end == n { 0 } else { c.rng.below(end - n) };
    let step = if D > 1 && start + 3 * n < end { c.rng.range(1, 3) } else { 1 };
    let x: Vec<usize> = (0..n).map(|i| start + i * step).filter(|k| *k < end).collect();
    let (ta, ma) = build::<A>(c, &x, &x, 0);
    let half: Vec<usize> = x.iter().copied().filter(|k| k % 7 != 0).collect();
    let (tb, mb) = build::<B>(c, &half, &x, 1);
    c.label = format!("materialize of a long run, depth {D}");
    let t: Out<R> = map(&ta, Enc).materialize();
    let (k, v) = t.key_values();
    judge(c, "map(&a)", &x, &t, k, v, &m_map(&ma), salt(180));
    let t: Out<R> = map(intersection(&ta, &tb), Enc).materialize();
    let (k, v) = t.key_values();
    judge(c, "map(&a & &b)", &x, &t, k, v, &m_map(&m_inter(&ma, &mb)), salt(181));
}

// ---- afterwards ----
const FEW: usize = 8;
macro_rules! few {
    ($pick:expr, $a:ident, $ma:ident, $b:ident, $mb:ident, $v:ident) => { match $pick {
        0 => { let (t, m) = e_inter!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)); $v!("a&b", t, m) }
        1 => { let (t, m) = e_union!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)); $v!("a|b", t, m) }
        2 => { let (t, m) = e_id!(e_ref!($a, $ma, 0)); $v!("a", t, m) }
        3 => { let (t, m) = e_id!(e_ref!($b, $mb, 0)); $v!("b", t, m) }
        4 => { let (t, m) = e_fold!(e_munion!(&$a[..], &$ma)); $v!("fold munion", t, m) }
        5 => { let (t, m) = e_fold!(e_minter!(&$a[..3], &$ma[..3])); $v!("fold minter", t, m) }
        6 => { let (t, m) = e_union!(e_inter!(e_ref!($a, $ma, 0), e_ref!($b, $mb, 0)), e_inter!(e_ref!($a, $ma, 1), e_ref!($b, $mb, 1))); $v!("(a&b)|(a&b)", t, m) }
        _ => { let (t, m) = e_union!(e_map!(e_union!(e_ref!($a, $ma, 0), e_ref!($a, $ma, 1))), e_ref!($b, $mb, 0)); $v!("map(a|a)|b", t, m) }
    } };
}
fn made(c: &mut Case, o: &Ops) -> (Out<u64>, Map<u64>) {
    let Ops { a, ma, b, mb, .. } = o;
    let pick = c.no % FEW;
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("materialize({}) of depth {D}, then a history", $n);
        c.log(|| format!("{}: {} elements", $n, $m.len()));
        (map(&$t, Num).materialize::<Out<u64>>(), $m.iter().map(|(k, v)| (*k, num(&v.0))).collect::<Map<u64>>())
    }} }
    few!(pick, a, ma, b, mb, v)
}
fn rm(m: &Map<u64>) -> RM { m.iter().map(|(k, v)| (*k, R(vec![*v]))).collect() }
fn hist_of<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>, m: Map<u64>, all: &[usize]) -> Hist<V> {
    let l = c.label.clone();
    let mut u = all.to_vec();
    if u.is_empty() { u.push(0); }
    // the history works on the elements, their neighbours, and the rest of a full node
    let w = t.w(); let d = t.d();
    for _ in 0..u.len().min(60) { let k = *c.rng.pick(&u); u.push(keys::near(&mut c.rng, k, w, d)); }
    let k = *c.rng.pick(&u);
    let l0 = c.rng.below(d);
    let mut g = digits(k, w, d);
    for x in 0..w { g[l0] = x; let k = undigits(&g, w); if k < range_end(w, d) { u.push(k); } }
    u.sort(); u.dedup();
    let mut h = Hist::with(c, t, u);
    c.label = l;
    h.model = m;
    h.next_id = 1 << 20;
    h
}
fn post<V: Val>(c: &mut Case, h: &mut Hist<V>) {
    verify_all(c, h);
    let m = h.rm();
    check_walk(c, h.t.reg(), &m, c.no % 2 == 0);
    check_iteration(c, h.t.reg(), &m);
    let n = c.sz(4, 20);
    check_cursor(c, h.t.reg(), &m, n);
    let (k, v) = h.t.kv();
    let v: Vec<R> = v.iter().map(|x| R(vec![x.view()])).collect();
    check_kv(c, k, &v, &m);
}
fn concrete<V: Val>(t: Box<dyn Cont<V>>) -> Box<Out<V>> { unsafe { Box::from_raw(Box::into_raw(t) as *mut Out<V>) } }
fn mord_hist(c: &mut Case) {
    let n = cap(c);
    let o = ops(c, n);
    let (t, m) = made(c, &o);
    let mut h = hist_of::<u64>(c, Box::new(t), m, &o.all);
    // the first operation meets the tree as it was made
    match c.no / FEW % 4 {
        0 => { let ks: Vec<usize> = h.model.keys().copied().collect(); for k in ks.iter().take(3) { h.remove(c, *k); } }
        1 => { for _ in 0..3 { let k = h.key(c); h.insert(c, k); } }
        2 => { for _ in 0..3 { let k = h.key(c); h.goi(c, k); } }
        _ => {}
    }
    for round in 0..c.sz(1, 3) {
        cs::phase(c, &mut h);
        post(c, &mut h);
        if round == 0 || c.rng.chance(1, 2) {
            // as an operand, and materialized again
            let t = concrete(h.t);
            let m = rm(&h.model);
            let (x, mx) = (&o.a[0], &o.ma[0]);
            let p = probes(&mut c.rng, &m, &o.all, 64, D, 12);
            let l = intersection(&*t, x);
            check_all(c, &l, &m_inter(&m, mx), &p, 5);
            let l = union(x, &*t);
            check_all(c, &l, &m_union(mx, &m), &p, 5);
            let pair = [&*t, &*t];
            let l = multi_map_fold(multi_union(pair.iter().copied()), Init, FoldEnc);
            check_all(c, &l, &m_fold(&m_multi_union(&[m.clone(), m.clone()])), &p, 5);
            c.count("used_as_operand", 3);
            let again: Out<u64> = map(&*t, |v: &u64| *v).materialize();
            check_all(c, &again, &m, &p, 5);
            let again: Out<u64> = map(intersection(&*t, &again), |(x, _): (&u64, &u64)| *x).materialize();
            check_all(c, &again, &m, &p, 5);
            c.count("materialized", 2);
            // continue with either
            h.t = if c.rng.chance(1, 2) { Box::new(again) } else { t };
        }
    }
    h.drain(c);
    post(c, &mut h);
    for _ in 0..10 { let k = h.key(c); h.insert(c, k); }
    post(c, &mut h);
    c.count("operations", h.ops);
}
/// Values with a ledger: each made once, each dropped once, the whole life long.
fn mord_own(c: &mut Case) {
    let n = cap(c).min(160);
    let o = ops(c, n);
    let Ops { a, ma, b, mb, all } = &o;
    let pick = c.no % FEW;
    reset_ledger();
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("materialize({}) of depth {D}, tracked values", $n);
        // ids have to be distinct
        let m: Map<u64> = $m.iter().map(|(k, v)| (*k, num(&v.0) >> 1)).collect();
        if m.values().collect::<std::collections::HashSet<_>>().len() != m.len() { return; }
        let t: Out<Tracked> = map(&$t, Make::<Tracked>(std::marker::PhantomData)).materialize();
        let mut h = hist_of::<Tracked>(c, Box::new(t), m, all);
        h.next_id = 1 << 20;
        cs::ledger_check("materialize", &h, &[], false);
        for _ in 0..c.sz(1, 3) {
            cs::phase(c, &mut h);
            verify_all(c, &mut h);
            cs::ledger_check("a history after materialize", &h, &[], false);
        }
        let fresh = Cell::new(1u64 << 40);
        let again: Out<Tracked> = { let t = concrete(h.t); let r = map(&*t, |v: &Tracked| { v.view(); fresh.set(fresh.get() + 1); Tracked::make(fresh.get()) }).materialize(); h.t = t; r };
        let want = h.model.len();
        check!(again.key_values().0.len() == want, "materialized again: {} elements of {want}", again.key_values().0.len());
        drop(again);
        if let Some(f) = faults().first() { viol!("{f}") }
        cs::ledger_check("dropping a second tree", &h, &[], false);
        let k = all.len();
        drop(h);
        let live = live_ids();
        check!(live.is_empty(), "{} values alive after the tree was dropped: {:x?}", live.len(), &live[..live.len().min(4)]);
        if let Some(f) = faults().first() { viol!("{f}") }
        c.count("ledger_checks", 5);
        c.state_if(k > 0, shape_hash(&$m, salt(pick)));
    }} }
    few!(pick, a, ma, b, mb, v)
}
/// Other value types: zero-sized, large and over-aligned, heap-allocated.
fn mord_values(c: &mut Case) {
    let n = cap(c).min(160);
    let o = ops(c, n);
    let Ops { a, ma, b, mb, all } = &o;
    fn go<V: Val>(c: &mut Case, all: &[usize], t: Out<V>, m: &RM) where for<'a> &'a V: Repr {
        let m: Map<u64> = m.iter().map(|(k, v)| (*k, V::canon(num(&v.0) >> 1))).collect();
        let mut h = hist_of::<V>(c, Box::new(t), m, all);
        post(c, &mut h);
        for _ in 0..2 { cs::phase(c, &mut h); post(c, &mut h); }
        c.count("operations", h.ops);
    }
    macro_rules! kinds { ($V:ty) => {{
        let f = Make::<$V>(std::marker::PhantomData);
        match c.no / 3 % 3 {
            0 => { c.label = format!("materialize(a) of depth {D}, {}", <$V>::NAME); let t = map(&a[0], f).materialize::<Out<$V>>(); go(c, all, t, &ma[0]) }
            1 => { c.label = format!("materialize(a&b) of depth {D}, {}", <$V>::NAME); let t = map(intersection(&a[0], &b[0]), f).materialize::<Out<$V>>(); go(c, all, t, &m_inter(&ma[0], &mb[0])) }
            _ => { c.label = format!("materialize(a|b) of depth {D}, {}", <$V>::NAME); let t = map(union(&a[0], &b[0]), f).materialize::<Out<$V>>(); go(c, all, t, &m_union(&ma[0], &mb[0])) }
        }
    }} }
    match c.no % 3 { 0 => kinds!(Zst), 1 => kinds!(Big), _ => kinds!(Boxed) }
}
/// Memory: the whole life of materialized trees leaves nothing, and a materialized tree is as big as its contents.
fn mord_mem(c: &mut Case) {
    let n = cap(c);
    let o = ops(c, n);
    let Ops { a, ma, b, mb, all } = &o;
    let pick = c.no % FEW;
    let script: Vec<(bool, usize)> = (0..c.sz(40, 300)).map(|_| {
        let mut k = if all.is_empty() { 0 } else { *c.rng.pick(all) };
        if c.rng.chance(1, 3) { k = keys::near(&mut c.rng, k, 64, D); }
        (c.rng.chance(1, 2), k)
    }).collect();
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("memory of materialize({}) of depth {D}", $n);
        let l0 = (alloc::live(), alloc::blocks());
        let (one, l1, held);
        {
            let t: Out<u64> = map(&$t, Num).materialize();
            one = alloc::live() - l0.0;
            let mut t2: Out<u64> = map(&t, |v: &u64| *v).materialize();
            drop(t);
            held = alloc::live() - l0.0;
            for (ins, k) in &script { if *ins { t2.insert(*k, 1); } else { t2.remove(*k); } }
            let t3: Out<u64> = map(intersection(&t2, &$t), Num).materialize();
            drop(t2);
            let ks: Vec<usize> = t3.key_values().0.to_vec();
            let mut t3 = t3;
            for k in &ks { t3.remove(*k); }
            let _e: Out<u64> = map(&t3, |v: &u64| *v).materialize();
            let _f: Out<u64> = map(intersection(&t3, &$t), Num).materialize();
        }
        l1 = (alloc::live(), alloc::blocks());
        check!(l1 == l0, "materialized trees left {} bytes in {} blocks", l1.0 as isize - l0.0 as isize, l1.1 as isize - l0.1 as isize);
        let (w, b) = (64usize, 6);
        let mut nodes = 1;
        for l in 1..D { let mut last = None; for k in $m.keys() { let p = k >> (b * (D - l)); if last != Some(p) { nodes += 1; last = Some(p); } } }
        let _ = w;
        let bound = nodes * 1400 + $m.len() * 64 + 4096;
        check!(one <= bound && held <= bound, "a materialized tree of {} elements in {nodes} nodes holds {one} bytes, its copy {held}", $m.len());
        c.count("memory_readings", 3);
        c.state_if(!$m.is_empty(), shape_hash(&$m, salt(pick)));
    }} }
    few!(pick, a, ma, b, mb, v)
}
/// A panic of the mapping function at its n-th call, for each n: nothing made is lost or dropped twice.
fn panic_mat(c: &mut Case) {
    let n = cap(c).min(120);
    let o = ops(c, n);
    let Ops { a, ma, b, mb, all } = &o;
    let pick = c.no % FEW;
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => {{
        c.label = format!("materialize({}) of depth {D}, panics", $n);
        let len = $m.len();
        let ids: std::collections::HashSet<u64> = $m.values().map(|v| num(&v.0)).collect();
        if ids.len() != len { return; }
        for round in 0..c.sz(2, 6) {
            let at = if round == 0 { 1 } else { 1 + c.rng.below(len + 2) as u64 };
            reset_ledger();
            set_fuse(at);
            let made = Cell::new(0u64);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let t: Out<Tracked> = map(&$t, Make::<Tracked>(std::marker::PhantomData)).materialize();
                made.set(1);
                t
            }));
            let fired = clear_fuse();
            match r {
                Ok(t) => {
                    check!(!fired, "the panic of the mapping function did not reach the caller");
                    let n = live_ids().len();
                    check!(n == len, "{n} values alive in a tree of {len}");
                    drop(t);
                }
                Err(p) => { if !p.is::<Injected>() { std::panic::resume_unwind(p) } check!(fired, "harness: panic without injection"); c.count("panics_injected", 1); c.state(shape_hash(&$m, salt(pick) ^ at << 32)); }
            }
            let live = live_ids();
            check!(live.is_empty(), "a panic at call {at} of the mapping function left {} values alive", live.len());
            if let Some(f) = faults().first() { viol!("{f}") }
        }
        // source and operands as before
        reset_ledger();
        check_iter(c, &$t, &$m);
        let t: Out<R> = map(&$t, Enc).materialize();
        check_iter(c, &t, &m_map(&$m));
        let _ = all;
    }} }
    few!(pick, a, ma, b, mb, v)
}
/// Values whose own drop panics, in materialized trees that are dropped or emptied.
fn panic_mord(c: &mut Case) {
    let n = cap(c).min(120);
    let o = ops(c, n);
    let all = &o.all;
    let m: Map<u64> = o.ma[0].iter().map(|(k, v)| (*k, num(&v.0) >> 1)).collect();
    if m.is_empty() { return; }
    c.label = format!("panicking drop in a materialized tree of depth {D}");
    for _ in 0..c.sz(2, 6) {
        reset_ledger();
        let exact = c.rng.chance(1, 2);
        let f = || Make::<Tracked>(std::marker::PhantomData);
        let t: Out<Tracked> = if exact { map(&o.a[0], f()).materialize() }
            else { map(map(intersection(&o.a[0], &o.a[0]), |(x, _): (&u64, &u64)| *x), f()).materialize() };
        let mut t = t;
        let m: Map<u64> = if exact { m.clone() } else { o.ma[0].iter().map(|(k, v)| (*k, num(&v.0) >> 1)).collect() };
        // values of the second form are made from the same numbers
        let k = { let ks: Vec<usize> = m.keys().copied().collect(); *c.rng.pick(&ks) };
        let kind = c.rng.below(2);
        let at = 1 + c.rng.below(if kind == 0 { m.len() } else { 1 }) as u64;
        set_fuse(at);
        let mut t = if kind == 0 {
            let r = catch_unwind(AssertUnwindSafe(move || drop(t)));
            check!(clear_fuse() && r.is_err(), "the panic of a value's drop did not reach the caller");
            let live = live_ids();
            check!(live.is_empty(), "a panicking drop at value {at} left {} of {} values alive", live.len(), m.len());
            if let Some(f) = faults().first() { viol!("{f}") }
            c.count("panics_injected", 1);
            c.state(shape_hash(&m, salt(201) ^ at << 32));
            continue;
        } else {
            let r = catch_unwind(AssertUnwindSafe(|| { t.insert(k, Tracked::make(77)); }));
            check!(clear_fuse() && r.is_err(), "the panic of a replaced value's drop did not reach the caller");
            t
        };
        c.count("panics_injected", 1);
        c.state(shape_hash(&m, salt(200) ^ k as u64));
        let v = HibitTree::get(&t, k).map(|v| v.view());
        check!(v.is_some(), "index {k} is gone after a panic during its replacement");
        t.remove(k);
        check!(HibitTree::get(&t, k).is_none(), "index {k} is still there after its removal");
        for (k2, v) in m.iter().take(50) { if *k2 != k { check!(HibitTree::get(&t, *k2).map(|v| v.view()) == Some(*v), "index {k2} changed by a panic elsewhere"); } }
        drop(t);
        let live = live_ids();
        check!(live.is_empty(), "{} values alive after everything was dropped", live.len());
        if let Some(f) = faults().first() { viol!("{f}") }
    }
    let _ = all;
}

/// Large materialized trees: what making them costs, and operations on them afterwards.
fn work_mat(c: &mut Case) {
    let n = c.sz(64, 1 << 19);
    let how = c.no % 4;
    let name = format!("materialized {} of depth {D}", ["map a", "map(a & a)", "map(a | b)", "fold(multi a)"][how]);
    hh::histcases::cost_of(c, 64, D, name, n, &mut |n, key, slow| {
        let (mut a, mut b) = (A::default(), B::default());
        for i in 0..n { if how != 2 || i % 3 > 0 { a.t_insert(key(i), i as u64) } if how == 2 && i % 3 < 2 { b.t_insert(key(i), i as u64) } slow("inserting", i) }
        let t: Out<u64> = match how {
            0 => map(a, |x: &u64| *x).materialize(),
            1 => map(intersection(&a, &a), |x: (&u64, &u64)| *x.0 | *x.1).materialize(),
            2 => map(union(a, b), |x: (Option<&u64>, Option<&u64>)| *x.0.or(x.1).unwrap()).materialize(),
            _ => multi_map_fold(multi_intersection([&a, &a].into_iter()), || 0, |s: u64, x: &u64| s | *x).materialize(),
        };
        slow("materializing", (3 * n).next_multiple_of(1024) - 1);
        Box::new(t)
    });
}

pub const SC: &[Scenario] = &[("mat_zoo", 66, mat_zoo), ("mat_reent", 22, mat_reent), ("mat_plain", 36, mat_plain), ("mat_hollow", 20, mat_hollow), ("mat_long", 2, mat_long), ("huge_mat", -1, mat_huge),
    ("work_mat", -4, work_mat), ("mord_hist", 44, mord_hist), ("mord_own", 22, mord_own), ("mord_values", 18, mord_values), ("mord_mem", 44, mord_mem), ("panic_mat", 44, panic_mat), ("panic_mord", 10, panic_mord)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
