// Readers, owners and hand-over in several threads. A, B: SparseTrees of equal shape; AD: A's levels with required defaults.
use hh::checks::*;
use hh::dynt::*;
use hh::gen::*;
use hh::run::*;
use hh::trees::*;
use hh::*;
use hibit_tree::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{mpsc, Arc};

struct Ops { all: Vec<usize>, a: Vec<A>, ma: Vec<RM>, b: Vec<B>, mb: Vec<RM> }
fn ops(c: &mut Case, cap: usize) -> Ops {
    let (all, a, ma, b, mb) = two_kinds::<A, B>(c, cap, 4, 3);
    Ops { all, a, ma, b, mb }
}
fn salt(pick: usize) -> u64 { (<A as TTree<u64>>::width() * 4096 + <A as TTree<u64>>::depth() * 256 + pick) as u64 ^ 0x7777 << 32 }

/// The order in which the threads did things, without ordering them: relaxed tickets.
static TICKET: AtomicU64 = AtomicU64::new(0);
#[derive(Default)]
struct Track { spans: Vec<(u64, u64)> }
impl Track {
    fn span<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let a = TICKET.fetch_add(1, Relaxed);
        let r = f();
        self.spans.push((a, TICKET.fetch_add(1, Relaxed)));
        r
    }
}
/// What was observed of the schedule: operations that overlapped one of another thread, and the interleaving as a state.
fn schedule(c: &mut Case, ts: &[Track], salt: u64) {
    let mut ev: Vec<(u64, usize, bool)> = ts.iter().enumerate().flat_map(|(i, t)| t.spans.iter().flat_map(move |s| [(s.0, i, true), (s.1, i, false)])).collect();
    ev.sort();
    let mut open = vec![false; ts.len()];
    let (mut h, mut overlaps, mut switches, mut last) = (salt, 0, 0, usize::MAX);
    for (_, i, start) in &ev {
        h = rng::mix2(h, (*i as u64) << 1 | *start as u64);
        if *start && open.iter().any(|o| *o) { overlaps += 1 }
        open[*i] = *start;
        if last != usize::MAX && last != *i { switches += 1 }
        last = *i;
    }
    c.count("operations_in_threads", ev.len() as u64 / 2);
    c.count("operations_overlapping_another_thread", overlaps);
    c.count("switches_between_threads", switches);
    c.state(h);
}
fn pause(c: &mut Case) {
    match c.rng.below(6) { 0 => std::thread::yield_now(), 1 => for _ in 0..c.rng.below(300) { std::hint::spin_loop() }, _ => {} }
}
/// One read of a tree with its model, by one of the paths.
fn read_tree<V: 'static + vals::Val, T: TTree<V> + RegularHibitTree>(c: &mut Case, t: &T, m: &RM, all: &[usize]) where for<'a> &'a V: repr::Repr {
    match c.rng.below(8) {
        0 | 1 => { let n = c.sz(4, 20); let p = probes(&mut c.rng, m, all, T::width(), T::depth(), n); check_get(c, t, m, &p) }
        2 => check_iter(c, t, m),
        3 => check_lend(c, t, m),
        4 => { let n = c.sz(3, 12); check_cursor(c, t, m, n) }
        5 => check_walk(c, t, m, true),
        6 => { let (k, v) = t.t_kv(); check_kv(c, k, v, m) }
        _ => {
            for _ in 0..c.sz(3, 20) {
                let k = *c.rng.pick(all);
                let Some(g) = t.t_get_or_default(k) else { break };
                let e = m.get(&k).map(|r| r.0[0]).unwrap_or(V::default().view());
                check!(g.view() == e, "get_or_default({k}) = {:x}, expected {e:x}", g.view());
            }
        }
    }
}
/// Readers of a few shared trees.
fn readers(c: &mut Case) {
    let cap = c.sz(10, 160);
    let o = ops(c, cap);
    let (td, md) = { let ks: Vec<usize> = o.ma[0].keys().copied().collect(); build::<AD>(c, &ks, &o.all, 9) };
    c.label = format!("readers of {} and {}", <A as TTree<u64>>::name(), <AD as TTree<u64>>::name());
    let n = c.rng.range(2, 4);
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let (o, td, md) = (&o, &td, &md);
    let bodies = tracks.iter_mut().map(|tr| move |c: &mut Case| {
        for _ in 0..c.sz(3, 14) {
            let i = c.rng.below(3);
            tr.span(|| match i {
                0 => read_tree(c, &o.a[0], &o.ma[0], &o.all),
                1 => read_tree(c, td, md, &o.all),
                _ => { let j = c.rng.below(o.b.len()); read_tree(c, &o.b[j], &o.mb[j], &o.all) }
            });
            pause(c);
        }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(0));
    let p = probes(&mut c.rng, &o.ma[0], &o.all, <A as TTree<u64>>::width(), <A as TTree<u64>>::depth(), 8);
    check_all(c, &o.a[0], &o.ma[0], &p, 4);
}
/// Each thread evaluates expressions of its own over shared trees.
fn expressions(c: &mut Case) {
    let cap = c.sz(10, 100);
    let o = ops(c, cap);
    c.label = format!("expressions over shared {} in threads", <A as TTree<u64>>::name());
    let n = c.rng.range(2, 4);
    let first = c.no * 4;
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let o = &o;
    let bodies = tracks.iter_mut().enumerate().map(|(i, tr)| move |c: &mut Case| {
        let Ops { all, a, ma, b, mb } = o;
        for round in 0..c.sz(1, 3) {
            let mut go = |t: &dyn Reg, m: &RM| {
                let k = c.sz(3, 16);
                let p = probes(&mut c.rng, m, all, t.w(), t.d(), k);
                tr.span(|| check_get(c, t, m, &p));
                pause(c);
                tr.span(|| check_iter(c, t, m));
                let steps = c.sz(2, 10);
                tr.span(|| check_cursor(c, t, m, steps));
                pause(c);
                tr.span(|| check_walk(c, t, m, false));
            };
            macro_rules! v { ($n:literal, $t:ident, $m:ident) => { go(&$t, &$m) } }
            zoo!((first + i + round * 5) % ZOO, a, ma, b, mb, v);
        }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(1));
    for (t, m) in o.a.iter().zip(&o.ma) { check_iter(c, t, m); }
}
/// Threads share one lazy tree itself.
fn shared_lazy(c: &mut Case) {
    let cap = c.sz(10, 100);
    let o = ops(c, cap);
    let Ops { all, a, ma, b, mb } = &o;
    let n = c.rng.range(2, 4);
    fn go<T: RegularHibitTree + Sync>(c: &mut Case, n: usize, name: &str, t: &T, m: &RM, all: &[usize])
        where for<'a> <T as HibitTreeTypes<'a>>::Data: repr::Repr, for<'a> <T as HibitTreeTypes<'a>>::DataUnchecked: repr::Repr
    {
        c.label = format!("{name} over {} shared by threads", <A as TTree<u64>>::name());
        let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
        let bodies = tracks.iter_mut().map(|tr| move |c: &mut Case| {
            for _ in 0..c.sz(2, 8) {
                tr.span(|| match c.rng.below(5) {
                    0 => { let k = c.sz(3, 16); let p = probes(&mut c.rng, m, all, t.w(), t.d(), k); check_get(c, t, m, &p) }
                    1 => check_iter(c, t, m), 2 => check_lend(c, t, m),
                    3 => { let n = c.sz(2, 10); check_cursor(c, t, m, n) }
                    _ => check_walk(c, t, m, true),
                });
                pause(c);
            }
        }).collect();
        together(c, bodies);
        schedule(c, &tracks, salt(2));
    }
    match c.no % 6 {
        0 => { let (t, m) = e_inter!(e_ref!(a, ma, 0), e_ref!(b, mb, 0)); go(c, n, "a&b", &t, &m, all) }
        1 => { let (t, m) = e_map!(e_union!(e_ref!(a, ma, 0), e_ref!(b, mb, 1))); go(c, n, "map(a|b)", &t, &m, all) }
        2 => { let (t, m) = e_fold!(e_munion!(&a[..], ma)); go(c, n, "fold munion", &t, &m, all) }
        3 => { let (t, m) = e_fold!(e_minter!(&a[..3], &ma[..3])); go(c, n, "fold minter", &t, &m, all) }
        4 => { let (t, m) = e_union!(e_inter!(e_ref!(a, ma, 1), e_ref!(a, ma, 2)), e_ref!(b, mb, 2)); go(c, n, "(a&a)|b", &t, &m, all) }
        _ => {
            let (own, mo) = { let ks: Vec<usize> = ma[3].keys().copied().collect(); build::<A>(c, &ks, all, 8) };
            let t = union(own, &b[0]);
            go(c, n, "owned a | b", &t, &m_union(&mo, &mb[0]), all)
        }
    }
}
/// Readers of shared trees beside owners of other trees, one of them a DenseTree, which change and drop them.
fn beside(c: &mut Case) {
    let cap = c.sz(10, 120);
    let o = ops(c, cap);
    c.label = format!("readers of {} beside owners of other trees", <A as TTree<u64>>::name());
    let n = c.rng.range(3, 4);
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let o = &o;
    let bodies = tracks.iter_mut().enumerate().map(|(i, tr)| move |c: &mut Case| {
        for _ in 0..c.sz(2, 8) {
            match i {
                0 => tr.span(|| read_tree(c, &o.a[0], &o.ma[0], &o.all)),
                1 => tr.span(|| { let t = A::default(); own(c, t, &o.all) }),
                2 => tr.span(|| { let t = DenseTree::<u64, 3>::default(); let r = range_end(64, 3); let all: Vec<usize> = o.all.iter().map(|k| k % r).collect(); own(c, t, &all) }),
                _ => tr.span(|| { let t = AD::default(); own(c, t, &o.all) }),
            }
            pause(c);
        }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(3));
    check_iter(c, &o.a[0], &o.ma[0]);
}
fn own<T: TTree<u64>>(c: &mut Case, mut t: T, all: &[usize]) {
    let mut m = RM::new();
    change(c, &mut t, &mut m, all, 60);
    check_iter(c, &t, &m);
    check_walk(c, &t, &m, true);
}
fn change<T: TTree<u64>>(c: &mut Case, t: &mut T, m: &mut RM, all: &[usize], n: usize) {
    for _ in 0..n {
        let k = *c.rng.pick(all);
        let v = c.rng.u64();
        match c.rng.below(8) {
            0..=2 => { t.t_insert(k, v); m.insert(k, repr::R(vec![v])); }
            3 => { *t.t_goi(k) = v; m.insert(k, repr::R(vec![v])); }
            4 | 5 => { let g = t.t_remove(k); let e = m.remove(&k); check!(g.map(|v| repr::R(vec![v])) == e, "remove({k}) = {g:x?}, expected {e:x?}"); }
            6 => { if let Some(g) = t.t_get_mut(k) { match (g, m.get_mut(&k)) { (Some(g), Some(e)) => { check!(*g == e.0[0], "get_mut({k})"); *g = v; *e = repr::R(vec![v]) } (None, None) => {} _ => viol!("get_mut({k}) disagrees about the presence") } } }
            _ => { let g = t.get(k).map(|v| repr::R(vec![*v])); check!(g.as_ref() == m.get(&k), "get({k}) = {g:x?}, expected {:x?}", m.get(&k)); }
        }
    }
}
/// Trees with their models go round a ring of threads; each checks, changes and passes on, or drops.
fn hand_over(c: &mut Case) {
    let w = <A as TTree<u64>>::width(); let d = <A as TTree<u64>>::depth();
    let all = { let cap = c.sz(12, 160); keys::universe(&mut c.rng, w, d, cap) };
    c.label = format!("{} handed from thread to thread", <A as TTree<u64>>::name());
    let n = c.rng.range(2, 4);
    let rounds = c.sz(3, 12);
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let (mut txs, mut rxs): (Vec<_>, Vec<_>) = (0..n).map(|_| mpsc::channel::<(A, RM, usize)>()).unzip();
    // trees built here, for some of the threads
    for i in 0..n { if c.rng.chance(1, 2) || i == 0 { let num = c.rng.range(1, 9); let ks = keys::subset(&mut c.rng, &all, num, 10); let (t, m) = build::<A>(c, &ks, &all, i); txs[i].send((t, m, 0)).unwrap() } }
    txs.rotate_left(1);     // thread i sends to i + 1
    let all = &all;
    let bodies = tracks.iter_mut().zip(txs).zip(rxs.drain(..)).map(|((tr, tx), rx)| move |c: &mut Case| {
        if c.rng.chance(1, 2) { let t = A::default(); let _ = tx.send((t, RM::new(), 0)); }
        while let Ok((mut t, mut m, hops)) = rx.recv() {
            tr.span(|| {
                read_tree(c, &t, &m, all);
                change(c, &mut t, &mut m, all, 20);
                check_iter(c, &t, &m);
            });
            c.count("trees_handed_over", 1);
            if hops + 1 < rounds { let _ = tx.send((t, m, hops + 1)); } else { drop(t); break }
        }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(4));
}
/// Values that count themselves: all of them are gone after the tree was dropped elsewhere.
struct Counted(u64, #[allow(dead_code)] Arc<()>);
fn counted(c: &mut Case) {
    let w = <A as TTree<u64>>::width(); let d = <A as TTree<u64>>::depth();
    let all = { let cap = c.sz(12, 120); keys::universe(&mut c.rng, w, d, cap) };
    c.label = "values made, removed and dropped by different threads".into();
    let live = Arc::new(());
    let mut t: SparseTree<L, Counted> = SparseTree::default();
    let mut m: BTreeMap<usize, u64> = BTreeMap::new();
    for hop in 0..4 {
        let (l, a, mut k) = (live.clone(), &all, c.child());
        let r = std::thread::scope(|s| s.spawn(move || guarded(move || {
            for _ in 0..k.sz(10, 60) {
                let i = *k.rng.pick(a);
                if k.rng.chance(3, 5) { let v = k.rng.u64(); t.insert(i, Counted(v, l.clone())); m.insert(i, v); }
                else { let g = t.remove(i).map(|x| x.0); let e = m.remove(&i); check!(g == e, "remove({i}) = {g:x?}, expected {e:x?}"); }
                let n = Arc::strong_count(&l) - 2;
                check!(n == m.len(), "{n} values are alive, the tree holds {}", m.len());
            }
            for (i, v) in t.iter() { check!(m.get(&i) == Some(&v.0), "value at {i}"); }
            (t, m, k)
        })).join().expect("guarded thread"));
        match r { Ok((t2, m2, k)) => { t = t2; m = m2; c.absorb(k) } Err(e) => viol!("in thread {hop}: {e}") }
        c.count("trees_handed_over", 1);
    }
    c.state(m.iter().fold(salt(5), |h, (k, v)| rng::mix2(rng::mix2(h, *k as u64), *v)));
    let h = std::thread::spawn(move || drop(t));
    h.join().expect("drop in another thread");
    check!(Arc::strong_count(&live) == 1, "{} values survive their tree", Arc::strong_count(&live) - 1);
}
/// Shared counters as values: what all threads added through whatever path is there in the end, at the right places.
fn counters(c: &mut Case) {
    let w = <A as TTree<u64>>::width(); let d = <A as TTree<u64>>::depth();
    let all = { let cap = c.sz(10, 100); keys::universe(&mut c.rng, w, d, cap) };
    c.label = "atomic counters as values, advanced by all threads".into();
    let mut t: SparseTree<L, AtomicU64> = SparseTree::default();
    let mut u: SparseTree<L, AtomicU64> = SparseTree::default();
    for k in &all { if c.rng.chance(2, 3) { t.insert(*k, AtomicU64::new(0)); } if c.rng.chance(2, 3) { u.insert(*k, AtomicU64::new(0)); } }
    for k in &all { if c.rng.chance(1, 4) { t.remove(*k); } }
    let n = c.rng.range(2, 4);
    let sums = std::sync::Mutex::new(BTreeMap::<(bool, usize), u64>::new());
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let (t, u, all, sm) = (&t, &u, &all, &sums);
    let bodies = tracks.iter_mut().map(|tr| move |c: &mut Case| {
        let mut mine = BTreeMap::<(bool, usize), u64>::new();
        for _ in 0..c.sz(3, 16) {
            let x = 1 + c.rng.below(1000) as u64;
            tr.span(|| match c.rng.below(5) {
                0 => for (k, v) in t.iter() { v.fetch_add(x, Relaxed); *mine.entry((false, k)).or_insert(0) += x; },
                1 => for (k, (v, w)) in intersection(t, u).iter() { v.fetch_add(x, Relaxed); w.fetch_add(x, Relaxed); *mine.entry((false, k)).or_insert(0) += x; *mine.entry((true, k)).or_insert(0) += x; },
                2 => for (k, (v, w)) in union(t, u).iter() {
                    if let Some(v) = v { v.fetch_add(x, Relaxed); *mine.entry((false, k)).or_insert(0) += x; }
                    if let Some(w) = w { w.fetch_add(x, Relaxed); *mine.entry((true, k)).or_insert(0) += x; }
                },
                3 => { let (ks, vs) = t.key_values(); for (k, v) in ks.iter().zip(vs) { v.fetch_add(x, Relaxed); *mine.entry((false, *k)).or_insert(0) += x; } }
                _ => for _ in 0..10 { let k = *c.rng.pick(all); if let Some(v) = u.get(k) { v.fetch_add(x, Relaxed); *mine.entry((true, k)).or_insert(0) += x; } },
            });
        }
        let mut g = sm.lock().unwrap();
        for (k, v) in mine { *g.entry(k).or_insert(0) += v; c.count("additions", 1); }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(6));
    let g = sums.lock().unwrap();
    for (which, tree) in [(false, t), (true, u)] {
        for (k, v) in tree.iter() { let e = g.get(&(which, k)).copied().unwrap_or(0); let v = v.load(Relaxed); check!(v == e, "the counter at {k} is {v}, the threads added {e}"); }
        for (_, k) in g.keys().filter(|x| x.0 == which) { check!(tree.get(*k).is_some(), "the threads found a counter at {k}, which is not there"); }
    }
}
/// Iterators of one tree in several threads; a cursor or iterator begun by one thread.
fn iterators(c: &mut Case) {
    let cap = c.sz(12, 200);
    let o = ops(c, cap);
    c.label = format!("iterators over one {} in threads", <A as TTree<u64>>::name());
    let n = c.rng.range(2, 4);
    let mut tracks: Vec<Track> = (0..n).map(|_| Track::default()).collect();
    let o = &o;
    let bodies = tracks.iter_mut().map(|tr| move |c: &mut Case| {
        for _ in 0..c.sz(1, 4) {
            let k = c.sz(8, 60);
            tr.span(|| check_iter_mix(c, &o.a[1], &o.ma[1], k));
            tr.span(|| check_cursors(c, &o.a[1], &o.ma[1], k / 3));
        }
    }).collect();
    together(c, bodies);
    schedule(c, &tracks, salt(7));
}
pub const SC: &[Scenario] = &[
    ("thr_readers", 12, readers), ("thr_expressions", 11, expressions), ("thr_shared_lazy", 12, shared_lazy), ("thr_beside", 8, beside),
    ("thr_hand_over", 8, hand_over), ("thr_counted", 6, counted), ("thr_counters", 8, counters), ("thr_iterators", 8, iterators),
];
fn main() { hh::run::main(SC) }
