// Lazy expressions over operands of types A and B (equal shape), under every kind of observation.
use hh::cases as cs;
use hh::checks::*;
use hh::dynt::*;
use hh::gen::*;
use hh::run::*;
use hh::trees::*;
use hh::vals::{clear_fuse, ledger, set_fuse};
use hh::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Ops { all: Vec<usize>, a: Vec<A>, ma: Vec<RM>, b: Vec<B>, mb: Vec<RM> }
fn ops(c: &mut Case, cap: usize) -> Ops {
    let (all, a, ma, b, mb) = two_kinds::<A, B>(c, cap, 4, 3);
    Ops { all, a, ma, b, mb }
}
fn expr(c: &mut Case, o: &Ops, pick: usize, f: &mut dyn FnMut(&mut Case, &dyn Reg, &RM)) {
    let Ops { a, ma, b, mb, .. } = o;
    let mut go = |n: &str, t: &dyn Reg, m: &RM| {
        c.label = format!("{} over {} and {}", n, <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
        c.log(|| format!("expression {n}, {} elements", m.len()));
        f(c, t, m);
        c.count("expressions", 1);
    };
    macro_rules! v { ($n:literal, $t:ident, $m:ident) => { go($n, &$t, &$m) }; }
    zoo!(pick, a, ma, b, mb, v)
}
fn salt(pick: usize) -> u64 { (<A as TTree<u64>>::width() * 4096 + <A as TTree<u64>>::depth() * 256 + pick) as u64 }

fn zoo_all(c: &mut Case) {
    let cap = c.sz(20, 140);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    expr(c, &o, pick, &mut |c, t, m| {
        let n = c.sz(10, 50);
        let p = probes(&mut c.rng, m, &o.all, t.w(), t.d(), n);
        check_all(c, t, m, &p, c.sz(6, 30));
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
}
/// User functions that look at the tree they are called for, and at its operands, in the middle of being called.
fn reentrant(c: &mut Case, body: fn(&mut Case, &Ops, &dyn Reg, &RM, usize)) {
    let cap = c.sz(10, 90);
    let o = ops(c, cap);
    // the expressions that call user code
    const P: [usize; 14] = [2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 15, 18, 20, 21];
    let pick = P[c.no % P.len()];
    expr(c, &o, pick, &mut |c, t, m| {
        let rng = std::cell::RefCell::new(c.rng.clone());
        let (calls, done) = (std::cell::Cell::new(0u64), std::cell::Cell::new(0u64));
        let most = c.sz(20, 160) as u64;
        let nosy = || {
            calls.set(calls.get() + 1);
            if done.get() >= most || calls.get() % (1 + done.get() / 8) != 0 { return }
            done.set(done.get() + 1);
            let (k, kind) = { let mut r = rng.borrow_mut(); (*r.pick(&o.all), r.below(6)) };
            match kind {
                0 | 1 => { let g = t.get(k); check!(g.as_ref() == m.get(&k), "get({k}) from within a function of the expression: {g:x?}, expected {:x?}", m.get(&k)) }
                2 => if m.contains_key(&k) { let g = unsafe { t.get_u(k) }; check!(Some(&g) == m.get(&k), "get_unchecked({k}) from within a function of the expression: {g:x?}, expected {:x?}", m.get(&k)) },
                3 => { let mut it = t.iter(); for (i, (k, v)) in m.iter().enumerate().take(4) { let g = it.next(i % 2 == 0); check!(g.as_ref().map(|g| (g.0, &g.1)) == Some((*k, v)), "element {i} of an iteration from within a function of the expression: {g:x?}, expected {k}: {v:x?}") } }
                4 => {
                    let dg = digits(k, t.w(), t.d());
                    let mut cur = t.cursor();
                    let g = unsafe { cur.select(0, 0, false); for l in 1..t.d() { cur.select(l, dg[l - 1], false); } cur.data(dg[t.d() - 1]) };
                    check!(g.as_ref() == m.get(&k), "a cursor from within a function of the expression gives {g:x?} at {k}, expected {:x?}", m.get(&k))
                }
                _ => { let (g, w) = (HibitTree::get(&o.a[0], k).copied(), o.ma[0].get(&k)); check!(g == w.map(|w| w.0[0]), "get({k}) on an operand from within a function of the expression: {g:x?}, expected {w:x?}") }
            }
        };
        hh::vals::with_reentry(&nosy, || body(c, &o, t, m, pick));
        c.count("reentrant_reads", done.get());
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
}
fn zoo_reent(c: &mut Case) {
    reentrant(c, |c, o, t, m, _| {
        let n = c.sz(6, 40);
        let p = probes(&mut c.rng, m, &o.all, t.w(), t.d(), n);
        check_all(c, t, m, &p, c.sz(6, 30));
    })
}
fn iter_reent(c: &mut Case) { reentrant(c, |c, _, t, m, _| check_iteration(c, t, m)) }
fn zoo_iter(c: &mut Case) {
    let cap = c.sz(20, 260);
    let o = ops(c, cap);
    expr(c, &o, c.no % ZOO, &mut |c, t, m| check_iteration(c, t, m));
}
fn zoo_range(c: &mut Case) {
    let cap = c.sz(12, 60);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    expr(c, &o, pick, &mut |c, t, m| {
        let end = range_end(t.w(), t.d());
        check!(t.range() == end, "index_range ends at {}, expected {end}", t.range());
        let mut ok = probes(&mut c.rng, m, &o.all, t.w(), t.d(), 16);
        ok.extend([end - 1, end - 2, 0, end / 2]);
        for k in ok {
            let (g, i) = (t.get(k), t.get_ix(k));
            check!(g == i && g.as_ref() == m.get(&k), "get({k}) = {g:x?}, get(Index::from({k})) = {i:x?}, expected {:x?}", m.get(&k));
            c.count("edge_indices", 1);
        }
        let live: Vec<usize> = o.all.clone();
        for k in cs::outside(c, end, t.w(), &live, c.sz(1, 8)) {
            cs::must_panic("get", k, || { t.get(k); });
            cs::must_panic("Index::from", k, || { t.get_ix(k); });
            c.count("rejected", 2);
        }
        check_iter(c, t, m);
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
}
fn zoo_cur(c: &mut Case) {
    let cap = c.sz(20, 160);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    expr(c, &o, pick, &mut |c, t, m| {
        check_cursor(c, t, m, c.sz(8, 60));
        check_cursors(c, t, m, c.sz(6, 40));
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
}
fn zoo_mask(c: &mut Case) {
    let cap = c.sz(20, 120);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    let mut dump = vec![];
    expr(c, &o, pick, &mut |c, t, m| {
        check_walk(c, t, m, false);
        check_walk(c, t, m, true);
        dump = dump_masks(t, 6000);
        c.count("nodes_walked", dump.len() as u64);
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
    // the same operands after other histories
    if dump.len() > 6000 { return; }
    let mut o2 = Ops { all: o.all.clone(), a: vec![], ma: vec![], b: vec![], mb: vec![] };
    for (i, m) in o.ma.iter().enumerate() { let ks: Vec<usize> = m.keys().copied().collect(); let (t, m) = build::<A>(c, &ks, &o.all, i); o2.a.push(t); o2.ma.push(m); }
    for (i, m) in o.mb.iter().enumerate() { let ks: Vec<usize> = m.keys().copied().collect(); let (t, m) = build::<B>(c, &ks, &o.all, 4 + i); o2.b.push(t); o2.mb.push(m); }
    expr(c, &o2, pick, &mut |c, t, _| {
        let d2 = dump_masks(t, 6000);
        check!(d2 == dump, "masks depend on the history of the operands: {:x?} / {:x?}", dump.iter().find(|x| !d2.contains(x)), d2.iter().find(|x| !dump.contains(x)));
        c.count("dumps_compared", 1);
    });
}
/// A panic at the n-th call of the user's functions, in every kind of access.
use hh::cases::access_panics as cs_panics;
fn zoo_panic(c: &mut Case) {
    let cap = c.sz(12, 80);
    let o = ops(c, cap);
    // the expressions that call user code
    const P: [usize; 14] = [2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 15, 18, 20, 21];
    // (operands of the user's own do in all)
    let pick = if c.no % 4 == 3 { c.no / 4 % ZOO } else { P[c.no % P.len()] };
    hh::vals::reset_ledger();
    expr(c, &o, pick, &mut |c, t, m| {
        cs_panics(c, t, m, &o.all, salt(pick));
    });
    // operands are as before
    for (t, m) in o.a.iter().zip(&o.ma) { check_iter(c, t, m); }
    for (t, m) in o.b.iter().zip(&o.mb) { check_iter(c, t, m); }
}
/// Building calls nothing; use leaves operands untouched.
fn zoo_lazy(c: &mut Case) {
    let cap = c.sz(16, 100);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    let before: Vec<(Vec<usize>, Vec<u64>, usize)> = o.a.iter().map(|t| { let (k, v) = t.t_kv(); (k.to_vec(), v.to_vec(), v.as_ptr() as usize) })
        .chain(o.b.iter().map(|t| { let (k, v) = t.t_kv(); (k.to_vec(), v.to_vec(), v.as_ptr() as usize) })).collect();
    log_on(true);
    expr(c, &o, pick, &mut |c, t, m| {
        let calls = log_take();
        check!(calls.is_empty(), "building the operation called user functions: {:x?}", &calls[..calls.len().min(3)]);
        // creating iterators and cursors and selecting nodes evaluates nothing either
        { let _i = t.iter(); let _c = t.cursor(); }
        let calls = log_take();
        check!(calls.is_empty(), "creating an iterator or cursor called user functions: {:x?}", &calls[..calls.len().min(3)]);
        check_walk(c, t, m, true);
        let calls = log_take();
        check!(calls.is_empty(), "selecting nodes called user functions: {:x?}", &calls[..calls.len().min(3)]);
        // each access calls what one element needs, and an absent index calls nothing at the outermost function
        for k in probes(&mut c.rng, m, &o.all, t.w(), t.d(), 24) {
            log_take();
            let a = t.get(k);
            check!(a.as_ref() == m.get(&k), "get({k}) = {a:x?}, expected {:x?}", m.get(&k));
            c.count("accesses_logged", 1);
        }
        check_iter_mix(c, t, m, 40);
        check_cursor(c, t, m, 10);
        c.state_if(!m.is_empty(), shape_hash(m, salt(pick)));
    });
    let n = log_take().len();
    log_on(false);
    c.count("calls_logged", n as u64);
    let after: Vec<(Vec<usize>, Vec<u64>, usize)> = o.a.iter().map(|t| { let (k, v) = t.t_kv(); (k.to_vec(), v.to_vec(), v.as_ptr() as usize) })
        .chain(o.b.iter().map(|t| { let (k, v) = t.t_kv(); (k.to_vec(), v.to_vec(), v.as_ptr() as usize) })).collect();
    check!(before == after, "using the operation changed an operand");
}
/// Addresses of what get on the operand gives.
fn addrs<T: TTree<u64>>(t: &T, m: &RM) -> RM {
    m.keys().map(|&k| (k, repr::R(vec![HibitTree::get(t, k).map(|r| r as *const u64 as u64).unwrap_or(0)]))).collect()
}
struct Addresses;
impl Addresses { fn on() -> Self { repr::ADDR.with(|a| a.set(true)); Addresses } }
impl Drop for Addresses { fn drop(&mut self) { repr::ADDR.with(|a| a.set(false)) } }
/// Delivered references are those that the operands give.
fn lazy_addr(c: &mut Case) {
    let cap = c.sz(16, 120);
    let mut o = ops(c, cap);
    o.ma = o.a.iter().zip(&o.ma).map(|(t, m)| addrs(t, m)).collect();
    o.mb = o.b.iter().zip(&o.mb).map(|(t, m)| addrs(t, m)).collect();
    let pick = c.no % ZOO;
    let on = Addresses::on();
    expr(c, &o, pick, &mut |c, t, m| {
        let n = c.sz(8, 40);
        let p = probes(&mut c.rng, m, &o.all, t.w(), t.d(), n);
        check_all(c, t, m, &p, c.sz(6, 24));
        c.count("addresses_compared", m.len() as u64);
    });
    // the states are counted by contents, not by addresses
    drop(on);
    let m = &o.ma[0];
    c.state_if(!m.is_empty(), shape_hash(&m.keys().map(|k| (*k, ())).collect::<Map<()>>(), salt(pick)));
}
/// Delivered references outlive what delivered them.
fn lazy_keep(c: &mut Case) {
    let cap = c.sz(16, 120);
    let o = ops(c, cap);
    let (a, b) = (&o.a[0], &o.b[0]);
    let (x, y) = (addrs(a, &o.ma[0]), addrs(b, &o.mb[0]));
    c.label = format!("references kept, over {} and {}", <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
    let at = |r: Option<&u64>| r.map(|r| r as *const u64 as u64).unwrap_or(0);
    let word = |m: &RM, k: usize| m.get(&k).map(|r| r.0[0]).unwrap_or(0);
    let mut kept: Vec<(usize, Option<&u64>, Option<&u64>)> = vec![];
    let t = hibit_tree::intersection(a, b);
    let u = hibit_tree::union(a, b);
    let m = hibit_tree::map(a, Ident);
    let stop = c.rng.below(o.all.len() + 1);
    kept.extend(HibitTree::iter(&t).map(|(k, (p, q))| (k, Some(p), Some(q))).take(stop));
    kept.extend(HibitTree::iter(&u).map(|(k, (p, q))| (k, p, q)).take(stop));
    kept.extend(HibitTree::iter(&m).map(|(k, p)| (k, Some(p), HibitTree::get(b, k))));
    for &k in o.all.iter().take(stop) {
        if let Some((p, q)) = HibitTree::get(&t, k) { kept.push((k, Some(p), Some(q))); }
        if let Some((p, q)) = HibitTree::get(&u, k) { kept.push((k, p, q)); }
    }
    c.log(|| format!("{} references kept", kept.len()));
    // others come and go
    for _ in 0..2 { let _ = HibitTree::iter(&t).count() + HibitTree::iter(&u).count(); drop(t.cursor()); }
    for (k, p, q) in &kept {
        check!(at(*p) == word(&x, *k) && at(*q) == word(&y, *k), "a reference kept from {k} is not to the stored element");
        check!(p.copied() == o.ma[0].get(k).map(|r| r.0[0]) && q.copied() == o.mb[0].get(k).map(|r| r.0[0]), "a reference kept from {k} no longer gives its value");
    }
    c.count("references_kept", kept.len() as u64);
    c.state_if(!kept.is_empty(), shape_hash(&o.ma[0], salt(stop)));
}
/// Building and dropping evaluates nothing, not even the operand iterator.
fn lazy_build(c: &mut Case) {
    let cap = c.sz(16, 60);
    let o = ops(c, cap);
    let n = std::cell::Cell::new(0usize);
    let seen = |_: &&A| { n.set(n.get() + 1); true };
    log_on(true);
    macro_rules! go { ($n:literal, $t:expr) => {{
        n.set(0); log_take();
        c.label = format!("{} over {}", $n, <A as TTree<u64>>::name());
        let t = $t;
        check!(n.get() == 0 && log_take().is_empty(), "building {} evaluated something ({} operands visited)", $n, n.get());
        drop(t);
        check!(n.get() == 0 && log_take().is_empty(), "dropping {} evaluated something ({} operands visited)", $n, n.get());
        c.count("built_and_dropped", 1);
    }} }
    let f = o.ma.iter().filter(|m| !m.is_empty()).count();
    go!("multi_intersection", hibit_tree::multi_intersection(o.a.iter().filter(seen)));
    go!("multi_union", hibit_tree::multi_union(o.a.iter().filter(seen)));
    go!("fold multi_intersection", hibit_tree::multi_map_fold(hibit_tree::multi_intersection(o.a.iter().filter(seen)), Init, FoldEnc));
    go!("fold multi_union", hibit_tree::multi_map_fold(hibit_tree::multi_union(o.a.iter().filter(seen)), Init, FoldEnc));
    go!("map fold | b", hibit_tree::union(hibit_tree::map(hibit_tree::multi_map_fold(hibit_tree::multi_union(o.a.iter().filter(seen)), Init, FoldEnc), Enc), &o.b[0]));
    go!("a & map fold", hibit_tree::intersection(&o.b[0], hibit_tree::map(hibit_tree::multi_map_fold(hibit_tree::multi_intersection(o.a.iter().filter(seen)), Init, FoldEnc), Enc)));
    go!("map", hibit_tree::map(hibit_tree::map(&o.a[0], Enc), Enc));
    log_on(false);
    // and what was built in one go gives what it should when it is used after all
    let t = hibit_tree::multi_map_fold(hibit_tree::multi_union(o.a.iter().filter(seen)), Init, FoldEnc);
    check_iter(c, &t, &m_fold(&m_multi_union(&o.ma)));
    c.state_if(f > 0, shape_hash(&o.ma[0], salt(f)));
}
/// Memory: operations, iterators and cursors, abandoned at any point, leave nothing.
fn zoo_mem(c: &mut Case) {
    let cap = c.sz(16, 100);
    let o = ops(c, cap);
    let pick = c.no % ZOO;
    // everything that the harness itself allocates happens outside of the measured part
    let ks: Vec<usize> = (0..20).map(|_| *c.rng.pick(&o.all)).collect();
    let plan: Vec<(usize, usize)> = (0..12).map(|_| (c.rng.below(4), c.rng.below(60))).collect();
    let mut out = (0, 0, 0, 0);
    expr(c, &o, pick, &mut |_, t, _| {
        let l0 = (alloc::live(), alloc::blocks());
        for (kind, n) in &plan {
            match kind {
                0 => { let mut it = t.iter(); for i in 0..*n { if it.next(i % 2 == 0).is_none() { break } } }
                1 => { for k in &ks { t.get(*k); } }
                2 => {
                    let mut cur = t.cursor();
                    for k in &ks[..n % 20] {
                        let dg = digits(*k, t.w(), t.d());
                        unsafe { cur.select(0, 0, false); for l in 1..t.d() { cur.select(l, dg[l - 1], false); } cur.data(dg[t.d() - 1]); }
                    }
                }
                _ => { let _a = t.iter(); let _b = t.cursor(); }
            }
        }
        out = (l0.0, l0.1, alloc::live(), alloc::blocks());
    });
    check!((out.0, out.1) == (out.2, out.3), "iterators and cursors left {} bytes in {} blocks", out.2 as isize - out.0 as isize, out.3 as isize - out.1 as isize);
    c.count("memory_readings", 1);
    c.state_if(!o.all.is_empty(), run_hash(&o, pick));
}
fn run_hash(o: &Ops, pick: usize) -> u64 { let mut h = salt(pick); for m in o.ma.iter().chain(&o.mb) { h = shape_hash(m, h); } h }

pub const SC: &[Scenario] = &[("zoo_all", 44, zoo_all), ("zoo_all_reent", 14, zoo_reent), ("iter_reent", 14, iter_reent), ("iter_zoo", 22, zoo_iter), ("range_zoo", 22, zoo_range), ("cur_zoo", 44, zoo_cur),
    ("mask_zoo", 44, zoo_mask), ("panic_zoo", 28, zoo_panic), ("lazy_zoo", 44, zoo_lazy), ("lazy_addr", 22, lazy_addr), ("lazy_keep", 6, lazy_keep), ("lazy_build", 4, lazy_build), ("mem_zoo", 22, zoo_mem)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
