// Operands and results of every kind of value: without size, of a byte, large and over-aligned, on the heap, with a ledger.
use hh::checks::*;
use hh::dynt::*;
use hh::gen::{key_sets, m_inter, m_multi_inter, m_multi_union, m_union};
use hh::repr::{Repr, R};
use hh::run::*;
use hh::trees::*;
use hh::vals::*;
use hh::*;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, HibitTree, LazyHibitTree, RegularHibitTree};
use std::cell::Cell;

/// Any value, as a result.
struct K<V>(V);
impl<V: Val> Repr for K<V> { fn repr(&self, o: &mut Vec<u64>) { o.push(self.0.view()) } }

struct Ops<V> { all: Vec<usize>, a: Vec<A<V>>, ma: Vec<RM>, b: Vec<B<V>>, mb: Vec<RM> }
fn one<V: Val, T: TTree<V>>(c: &mut Case, ks: &[usize], all: &[usize], tag: u64) -> (T, RM) {
    let (mut t, mut m) = (T::default(), RM::new());
    let extra = all.iter().copied().filter(|k| !ks.contains(k)).take(if c.rng.chance(1, 2) { 20 } else { 0 }).collect::<Vec<_>>();
    for &k in &extra { t.t_insert(k, V::make(c.rng.u64() >> 16)) }
    let mut order = ks.to_vec();
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut order) }
    for &k in &order { let id = (tag << 56 | k as u64) + 1; t.t_insert(k, V::make(id)); m.insert(k, R(vec![V::canon(id)])); }
    for &k in &extra { t.t_remove(k); }
    (t, m)
}
fn ops<V: Val>(c: &mut Case) -> Ops<V> {
    reset_ledger();
    let cap = c.sz(16, 120);
    let (all, sets) = key_sets(c, <A<V> as TTree<V>>::width(), <A<V> as TTree<V>>::depth(), 4, cap);
    let (mut a, mut ma, mut b, mut mb) = (vec![], vec![], vec![], vec![]);
    for i in 0..2 { let (t, m) = one::<V, A<V>>(c, &sets[i], &all, i as u64); a.push(t); ma.push(m); }
    for i in 0..2 { let (t, m) = one::<V, B<V>>(c, &sets[2 + i], &all, 2 + i as u64); b.push(t); mb.push(m); }
    Ops { all, a, ma, b, mb }
}
fn salt(c: &Case) -> u64 { rng::mix(c.label.bytes().fold(77, |h, b| rng::mix2(h, b as u64))) }
fn judge(c: &mut Case, what: String, all: &[usize], t: &dyn Reg, m: &RM) {
    c.label = what;
    let n = c.sz(8, 30);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), n);
    check_all(c, t, m, &p, if c.scale == 0 { 4 } else { 16 });
    check_iter_mix(c, t, m, if c.scale == 0 { 6 } else { 20 });
    c.count("expressions", 1);
    let s = salt(c);
    c.state_if(!m.is_empty(), shape_hash(m, s));
}
fn judge_multi(c: &mut Case, what: String, all: &[usize], t: &dyn Multi, m: &MModel, exact: bool) {
    c.label = what;
    let n = c.sz(8, 30);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), n);
    check_multi(c, t, m, &p, if c.scale == 0 { 4 } else { 12 }, exact);
    c.count("expressions", 1);
    let s = salt(c);
    c.state_if(!m.is_empty(), shape_hash(m, s));
}
/// nothing left behind, nothing twice
fn clean(what: &str) {
    let l = live_ids();
    check!(l.is_empty(), "{what}: {} values alive after everything was dropped", l.len());
    if let Some(f) = faults().first() { viol!("{what}: {f}") }
}
macro_rules! by_kind { ($c:ident, $f:ident, $own:literal) => {{
    match $c.no % 7 {
        0 => $f::<Zst>($c), 1 => $f::<Tiny>($c), 2 => $f::<Big>($c), 3 => $f::<Boxed>($c),
        4 if $own => $f::<Tracked>($c), 4 => $f::<Counted>($c), 5 => { z_reset(); $f::<ZTracked>($c); let (b, d, _) = z_counts(); check!(b == d, "of {b} values without size, {d} were dropped") }
        _ => $f::<Odd>($c),
    }
    clean(&$c.label);
    check!(counted_alive() == 0, "{}: {} values alive after everything was dropped", $c.label, counted_alive());
}} }

fn inter_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<V>(c);
    let Ops { all, a, ma, b, mb } = &o;
    let n = V::NAME;
    judge(c, format!("intersection(&a, &b) of {n}"), all, &intersection(&a[0], &b[0]), &m_inter(&ma[0], &mb[0]));
    judge(c, format!("intersection(&b, &a) of {n}"), all, &intersection(&b[1], &a[0]), &m_inter(&mb[1], &ma[0]));
    let numbers = map(&a[1], |v: &V| v.view());
    judge(c, format!("intersection(numbers, &b) of {n}"), all, &intersection(&numbers, &b[0]), &m_inter(&ma[1], &mb[0]));
    let Ops { all, a, ma, b, mb } = o;
    let (mut a, mut b) = (a.into_iter(), b.into_iter());
    judge(c, format!("intersection(a, b) of {n}"), &all, &intersection(a.next().unwrap(), b.next().unwrap()), &m_inter(&ma[0], &mb[0]));
}
fn union_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<V>(c);
    let Ops { all, a, ma, b, mb } = &o;
    let n = V::NAME;
    judge(c, format!("union(&a, &b) of {n}"), all, &union(&a[0], &b[0]), &m_union(&ma[0], &mb[0]));
    judge(c, format!("union(&b, &a) of {n}"), all, &union(&b[1], &a[0]), &m_union(&mb[1], &ma[0]));
    let numbers = map(&a[1], |v: &V| v.view());
    judge(c, format!("union(numbers, &b) of {n}"), all, &union(&numbers, &b[0]), &m_union(&ma[1], &mb[0]));
    let Ops { all, a, ma, b, mb } = o;
    let (mut a, mut b) = (a.into_iter(), b.into_iter());
    judge(c, format!("union(a, b) of {n}"), &all, &union(a.next().unwrap(), b.next().unwrap()), &m_union(&ma[0], &mb[0]));
}
fn minter_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<V>(c);
    let n = V::NAME;
    let mm = |m: &[RM]| { let m = [m[0].clone(), m[1].clone(), m[0].clone()]; m_multi_inter(&m) };
    judge_multi(c, format!("multi_intersection([&a0, &a1, &a0]) of {n}"), &o.all, &MW(multi_intersection([&o.a[0], &o.a[1], &o.a[0]].into_iter())), &mm(&o.ma), true);
    judge_multi(c, format!("multi_intersection(b) of {n}"), &o.all, &MW(multi_intersection(o.b.iter())), &m_multi_inter(&o.mb), true);
}
fn munion_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<V>(c);
    let n = V::NAME;
    let mm = |m: &[RM]| { let m = [m[0].clone(), m[1].clone(), m[0].clone()]; m_multi_union(&m) };
    judge_multi(c, format!("multi_union([&a0, &a1, &a0]) of {n}"), &o.all, &MW(multi_union([&o.a[0], &o.a[1], &o.a[0]].into_iter())), &mm(&o.ma), false);
    judge_multi(c, format!("multi_union(b) of {n}"), &o.all, &MW(multi_union(o.b.iter())), &m_multi_union(&o.mb), false);
}

/// Every way to an element of `t`; between two of them the function (and `inits`, once per element) must have been called as often as `per` says.
fn counted(c: &mut Case, what: &str, t: &dyn Reg, m: &RM, all: &[usize], calls: &Cell<u64>, inits: Option<&Cell<u64>>, per: &dyn Fn(usize) -> u64) {
    let seen = Cell::new((calls.get(), inits.map_or(0, |i| i.get())));
    let did = |how: &str, k: usize, elements: u64, f: u64| {
        let now = (calls.get(), inits.map_or(0, |i| i.get()));
        let (df, di) = (now.0 - seen.get().0, now.1 - seen.get().1);
        seen.set(now);
        check!(df == f, "{what}: {how} at {k} called the function {df} times, expected {f}");
        if inits.is_some() { check!(di == elements, "{what}: {how} at {k} made {di} initial values, expected {elements}") }
    };
    let n = c.sz(6, 24);
    for k in probes(&mut c.rng, m, all, t.w(), t.d(), n) {
        let is = m.contains_key(&k);
        let f = if is { per(k) } else { 0 };
        t.get(k); did("get", k, is as u64, f);
        t.get_ix(k); did("get with an Index", k, is as u64, f);
        if is { unsafe { t.get_u(k) }; did("get_unchecked", k, 1, f); }
    }
    for lending in [false, true] {
        let mut it = t.iter();
        did("creating an iterator", 0, 0, 0);
        for &k in m.keys() { it.next(lending); did("iteration", k, 1, per(k)); }
        it.next(lending);
        did("the end of an iteration", 0, 0, 0);
    }
    let total: u64 = m.keys().map(|&k| per(k)).sum();
    t.iter().fold(); did("folding an iteration", 0, m.len() as u64, total);
    let keys: Vec<usize> = m.keys().copied().collect();
    let mut cur = t.cursor();
    for _ in 0..c.sz(3, 10) {
        if keys.is_empty() { break }
        let k = *c.rng.pick(&keys);
        let d = t.d();
        let dg = digits(k, t.w(), d);
        let unchecked = c.rng.chance(1, 2);
        unsafe { cur.select(0, 0, unchecked); for l in 1..d { cur.select(l, dg[l - 1], unchecked); } }
        did("selecting nodes", k, 0, 0);
        unsafe { cur.data(dg[d - 1]) }; did("data of a cursor", k, 1, per(k));
        unsafe { cur.data_u(dg[d - 1]) }; did("data_unchecked of a cursor", k, 1, per(k));
    }
    c.count("accesses_counted", 1);
}
fn same<V>(v: &V) -> &V { v }
fn some<V>(v: &V) -> Option<&V> { Some(v) }
fn mapf_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<u64>(c);
    let Ops { all, a, ma, b, mb } = &o;
    let n = V::NAME;
    let res = |m: &RM| -> RM { m.iter().map(|(k, v)| (*k, R(vec![V::canon(v.0[0] ^ 0x33)]))).collect() };
    let calls = Cell::new(0u64);
    macro_rules! go { ($what:literal, $t:expr, $m:expr) => {{
        let (t, m): (_, RM) = ($t, $m);
        judge(c, format!("{} to {n}", $what), all, &t, &m);
        let what = c.label.clone();
        counted(c, &what, &t, &m, all, &calls, None, &|_| 1);
    }} }
    go!("map(&a)", map(&a[0], |v: &u64| { calls.set(calls.get() + 1); K(V::make(*v ^ 0x33)) }), res(&ma[0]));
    go!("b.map_ref()", b[0].map_ref(|v: &u64| { calls.set(calls.get() + 1); K(V::make(*v ^ 0x33)) }), res(&mb[0]));
    go!("map(a & b)", map(intersection(&a[0], &b[0]), |v: (&u64, &u64)| { calls.set(calls.get() + 1); K(V::make((*v.0).max(*v.1) ^ 0x33)) }),
        res(&m_inter(&ma[0], &mb[0]).into_iter().map(|(k, v)| (k, R(vec![v.0[0].max(v.0[1])]))).collect()));
    {
        // one function's result is another's argument
        let inner = map(&a[1], |v: &u64| K(V::make(*v)));
        let m: RM = ma[1].iter().map(|(k, v)| (*k, R(vec![V::canon(V::canon(v.0[0]) >> 1)]))).collect();
        go!("map of map(&a)", map(&inner, |v: K<V>| { calls.set(calls.get() + 1); K(V::make(v.0.view() >> 1)) }), m);
        judge(c, format!("(map a to {n}) | (map b to {n})"), all, &union(&inner, map(&b[1], |v: &u64| K(V::make(*v)))),
            &m_union(&ma[1].iter().map(|(k, v)| (*k, R(vec![V::canon(v.0[0])]))).collect(), &mb[1].iter().map(|(k, v)| (*k, R(vec![V::canon(v.0[0])]))).collect()));
    }
    drop(o);
    // references to what the operand holds
    let o = ops::<V>(c);
    judge(c, format!("map to the same {n}"), &o.all, &map(&o.a[0], same::<V>), &o.ma[0]);
    let m: RM = o.mb[0].iter().map(|(k, v)| { let mut x = vec![0xA1A1]; x.extend(&v.0); (*k, R(x)) }).collect();
    judge(c, format!("map to Some {n}"), &o.all, &map(&o.b[0], some::<V>), &m);
}
fn foldf_k<V: Val>(c: &mut Case) {
    let o = ops::<u64>(c);
    let n = V::NAME;
    let (calls, inits) = (Cell::new(0u64), Cell::new(0u64));
    let model = |mm: &MModel| -> RM { mm.iter().map(|(k, vs)| (*k, R(vec![vs.iter().fold(V::canon(41), |s, v| V::canon(rng::mix2(s, v.0[0]) >> 2))]))).collect() };
    macro_rules! go { ($what:literal, $multi:expr, $mm:expr) => {{
        let mm: MModel = $mm;
        let m = model(&mm);
        let t = multi_map_fold($multi, || { inits.set(inits.get() + 1); K(V::make(41)) }, |s: K<V>, v: &u64| { calls.set(calls.get() + 1); K(V::make(rng::mix2(s.0.view(), *v) >> 2)) });
        judge(c, format!("multi_map_fold({}) to {n}", $what), &o.all, &t, &m);
        let what = c.label.clone();
        counted(c, &what, &t, &m, &o.all, &calls, Some(&inits), &|k| mm[&k].len() as u64);
    }} }
    go!("multi_union(a)", multi_union(o.a.iter()), m_multi_union(&o.ma));
    go!("multi_intersection(b)", multi_intersection(o.b.iter()), m_multi_inter(&o.mb));
    {
        // values of the kind are folded, too
        let (x, y) = (map(&o.a[0], |v: &u64| K(V::make(*v))), map(&o.a[1], |v: &u64| K(V::make(*v))));
        let fx: fn(&u64) -> K<V> = |v| K(V::make(*v));
        drop((x, y));
        let maps = [map(&o.a[0], fx), map(&o.a[1], fx)];
        let t = multi_map_fold(multi_union(maps.iter()), || 5u64, |s: u64, v: K<V>| rng::mix2(s, v.0.view()));
        let m: RM = m_multi_union(&o.ma).into_iter().map(|(k, vs)| (k, R(vec![vs.iter().fold(5, |s, v| rng::mix2(s, V::canon(v.0[0])))]))).collect();
        judge(c, format!("multi_map_fold(multi_union of maps to {n})"), &o.all, &t, &m);
    }
}
fn mat_k<V: Val>(c: &mut Case) where for<'a> &'a V: Repr {
    let o = ops::<u64>(c);
    let Ops { all, a, ma, b, mb } = &o;
    let n = V::NAME;
    let calls = Cell::new(0u64);
    macro_rules! go { ($what:literal, $t:expr, $m:expr) => {{
        let m: RM = $m;
        calls.set(0);
        let t: A<V> = $t.materialize();
        check!(calls.get() == m.len() as u64, "{} of {n}: {} elements, but {} calls", $what, m.len(), calls.get());
        judge(c, format!("materialized {} of {n}", $what), all, &t, &m);
        let (ks, vs) = t.t_kv();
        check_kv(c, ks, vs, &m);
    }} }
    let res = |m: &RM| -> RM { m.iter().map(|(k, v)| (*k, R(vec![V::canon(v.0[0] ^ 0x33)]))).collect() };
    go!("map(&a)", map(&a[0], |v: &u64| { calls.set(calls.get() + 1); V::make(*v ^ 0x33) }), res(&ma[0]));
    go!("map(a & b)", map(intersection(&a[0], &b[0]), |v: (&u64, &u64)| { calls.set(calls.get() + 1); V::make((*v.0).max(*v.1) ^ 0x33) }),
        res(&m_inter(&ma[0], &mb[0]).into_iter().map(|(k, v)| (k, R(vec![v.0[0].max(v.0[1])]))).collect()));
    go!("map(b)", map(&b[1], |v: &u64| { calls.set(calls.get() + 1); V::make(*v ^ 0x33) }), res(&mb[1]));
    let mu = m_multi_union(ma);
    let calls2 = Cell::new(0u64);
    let f = multi_map_fold(multi_union(a.iter()), || { calls2.set(calls2.get() + 1); V::make(41) }, |s: V, v: &u64| V::make(rng::mix2(s.view(), *v) >> 2));
    let t: A<V> = f.materialize();
    check!(calls2.get() == mu.len() as u64, "fold to {n}: {} elements, but {} initial values", mu.len(), calls2.get());
    judge(c, format!("materialized fold(a) of {n}"), all, &t, &mu.iter().map(|(k, vs)| (*k, R(vec![vs.iter().fold(V::canon(41), |s, v| V::canon(rng::mix2(s, v.0[0]) >> 2))]))).collect());
}
fn inter_kinds(c: &mut Case) { by_kind!(c, inter_k, true) }
fn union_kinds(c: &mut Case) { by_kind!(c, union_k, true) }
fn minter_kinds(c: &mut Case) { by_kind!(c, minter_k, true) }
fn munion_kinds(c: &mut Case) { by_kind!(c, munion_k, true) }
fn mapf_kinds(c: &mut Case) { by_kind!(c, mapf_k, false) }
fn foldf_kinds(c: &mut Case) { by_kind!(c, foldf_k, false) }
fn mat_kinds(c: &mut Case) { by_kind!(c, mat_k, false) }
pub const SC: &[Scenario] = &[("inter_kinds", 14, inter_kinds), ("union_kinds", 14, union_kinds), ("minter_kinds", 14, minter_kinds), ("munion_kinds", 14, munion_kinds),
    ("mapf_kinds", 14, mapf_kinds), ("foldf_kinds", 14, foldf_kinds), ("mat_kinds", 14, mat_kinds)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
