// multi_* operations over any iterator of operand references, with types A and B (equal shape).
use hh::checks::*;
use hh::dynt::*;
use hh::gen::*;
use hh::repr::R;
use hh::run::*;
use hh::trees::*;
use hh::*;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, HibitTree, HibitTreeCursor, HibitTreeTypes, MultiHibitTree};

fn salt(pick: usize) -> u64 { (<A as TTree<u64>>::width() * 4096 + <A as TTree<u64>>::depth() * 256 + pick) as u64 }
struct Ops { all: Vec<usize>, a: Vec<A>, ma: Vec<RM>, b: Vec<B>, mb: Vec<RM> }
fn count(c: &mut Case) -> usize { if c.scale == 0 { c.rng.below(5) } else { match c.rng.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 | 4 => c.rng.range(2, 5), 5 | 6 => c.rng.range(3, 12), 7 => 31, 8 => 32, _ => c.rng.range(0, 32) } } }
/// n operands of type A and as many of B. Many operands of an intersection need to be mostly full.
fn ops(c: &mut Case, n: usize, m: usize, dense: bool) -> Ops {
    let cap = if c.scale == 0 { 14 } else if n + m > 16 { 60 } else { *c.rng.pick(&[40, 120, 400]) };
    let (all, mut a, mut ma, mut b, mut mb) = two_kinds::<A, B>(c, cap, n, m);
    if dense && n + m > 2 {
        // keep some common indices: most operands lack only a few of them
        for i in 0..n + m {
            if c.rng.chance(3, 4) {
                let ks = keys::subset(&mut c.rng, &all, 19, 20);
                if i < n { let (t, m) = build::<A>(c, &ks, &all, i); a[i] = t; ma[i] = m; } else { let (t, m) = build::<B>(c, &ks, &all, i); b[i - n] = t; mb[i - n] = m; }
            }
        }
    }
    Ops { all, a, ma, b, mb }
}
fn judge(c: &mut Case, what: &str, all: &[usize], t: &dyn Multi, m: &MModel, n: usize, exact_len: bool, s: u64) {
    c.label = format!("{what} of {n} over {} and {}", <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
    c.log(|| format!("{what} of {n}: {} elements expected", m.len()));
    let np = c.sz(8, 50);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), np);
    check!(t.range() == range_end(t.w(), t.d()), "index_range of {what} ends at {}", t.range());
    check_multi(c, t, m, &p, if c.scale == 0 { 5 } else { 24 }, exact_len);
    c.count("expressions", 1);
    c.count("values_judged", m.values().map(|v| v.len() as u64).sum());
    c.state_if(!m.is_empty(), shape_hash(m, s ^ (n as u64) << 40));
}
/// Every way to name operands; `$go!(name, iterator, models in the iterator's order)`.
macro_rules! iters {
    ($c:ident, $o:ident, $n:ident, $pick:expr, $go:ident) => {{
        let Ops { a, ma, b, mb, .. } = &$o;
        let n = $n;
        let own = |i: &[usize]| -> Vec<RM> { i.iter().map(|&i| ma[i].clone()).collect() };
        match $pick {
            0 => $go!("slice", a.iter(), ma.clone()),
            1 => { let k = $c.rng.below(n + 1); $go!("sub-slice", a[..k].iter(), ma[..k].to_vec()) }
            2 => { let k = $c.rng.below(n + 1); $go!("chain", a[k..].iter().chain(a[..k].iter()), [&ma[k..], &ma[..k]].concat()) }
            3 => $go!("filter", a.iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, t)| t), own(&(0..n).filter(|i| i % 3 != 1).collect::<Vec<_>>())),
            4 => $go!("reversed", a.iter().rev(), own(&(0..n).rev().collect::<Vec<_>>())),
            5 => { let k = $c.rng.below(n.max(1)); if n > 0 { $go!("once", std::iter::once(&a[k]), own(&[k])) } else { $go!("once", std::iter::once(&b[0]), vec![mb[0].clone()]) } }
            6 => $go!("none", std::iter::empty::<&A>(), vec![]),
            7 => {
                let mut ix: Vec<usize> = (0..n).collect(); $c.rng.shuffle(&mut ix);
                let refs: Vec<&A> = ix.iter().map(|&i| &a[i]).collect();
                $go!("references, shuffled", refs.iter().copied(), own(&ix))
            }
            8 => if n > 0 { $go!("one tree many times", std::iter::repeat(&a[0]).take(n), own(&vec![0; n])) } else { $go!("one tree zero times", std::iter::repeat(&b[0]).take(0), vec![]) },
            9 => $go!("step_by", a.iter().step_by(2), own(&(0..n).step_by(2).collect::<Vec<_>>())),
            10 => { let k = $c.rng.below(n + 1); $go!("skip", a.iter().skip(k), own(&(k..n).collect::<Vec<_>>())) }
            11 => {
                let m: std::collections::BTreeMap<usize, &A> = a.iter().enumerate().map(|(i, t)| (n - i, t)).collect();
                $go!("map values", m.values().copied(), own(&(0..n).rev().collect::<Vec<_>>()))
            }
            12 => {
                let ch: Vec<&[A]> = a.chunks(3).collect();
                $go!("flattened chunks", ch.iter().flat_map(|x| x.iter()), ma.clone())
            }
            13 => $go!("skip_while", a.iter().skip_while(|_| false), ma.clone()),
            14 => $go!("slice of the other kind", b.iter(), mb.clone()),
            15 => {
                let x: (Vec<_>, Vec<_>) = (0..n).map(|i| e_inter!(e_ref!(a, ma, i), e_ref!(b, mb, i % b.len()))).unzip();
                $go!("lazy intersections", x.0.iter(), x.1.clone())
            }
            16 => {
                let x: (Vec<_>, Vec<_>) = (0..n).map(|i| e_union!(e_ref!(a, ma, i), e_ref!(b, mb, i % b.len()))).unzip();
                $go!("lazy unions", x.0.iter(), x.1.clone())
            }
            17 => {
                let x: (Vec<_>, Vec<_>) = (0..n).map(|i| e_map!(e_ref!(a, ma, i))).unzip();
                $go!("lazy maps", x.0.iter(), x.1.clone())
            }
            18 => {
                let x: (Vec<_>, Vec<_>) = (0..n.min(6)).map(|i| e_fold!(e_munion!(&a[i..n.min(i + 2)], &ma[i..n.min(i + 2)]))).unzip();
                $go!("lazy multi unions", x.0.iter(), x.1.clone())
            }
            _ => {
                let x: (Vec<_>, Vec<_>) = (0..n.min(6)).map(|i| e_fold!(e_minter!(&a[i..n.min(i + 2)], &ma[i..n.min(i + 2)]))).unzip();
                $go!("lazy multi intersections, some twice", x.0.iter().chain(x.0.first()), [&x.1[..], &x.1[..x.1.len().min(1)]].concat())
            }
        }
    }};
}
const ITERS: usize = 20;
fn setup(c: &mut Case, dense: bool) -> (Ops, usize, usize) {
    let pick = c.no % ITERS;
    let mut n = count(c);
    if pick == 19 && n > 6 { n = 6; }
    let m = if pick >= 14 { if pick == 14 { n } else { 3 } } else { 1 };
    let o = ops(c, n, m, dense);
    (o, n, pick)
}
fn minter(c: &mut Case) {
    let (o, n, pick) = setup(c, true);
    macro_rules! go { ($n:expr, $it:expr, $ms:expr) => {{
        let ms: Vec<RM> = $ms; let m = m_multi_inter(&ms);
        judge(c, concat!("multi_intersection: ", $n), &o.all, &MW(multi_intersection($it)), &m, ms.len(), true, salt(pick));
    }} }
    iters!(c, o, n, pick, go)
}
fn munion(c: &mut Case) {
    let (o, n, pick) = setup(c, false);
    macro_rules! go { ($n:expr, $it:expr, $ms:expr) => {{
        let ms: Vec<RM> = $ms; let m = m_multi_union(&ms);
        judge(c, concat!("multi_union: ", $n), &o.all, &MW(multi_union($it)), &m, ms.len(), false, salt(pick));
    }} }
    iters!(c, o, n, pick, go)
}

// ---- multi_map_fold ----
fn chain(vs: &[R]) -> Vec<Call> {
    let mut out = vec![Call::Init];
    let mut acc = vec![FOLD_INIT];
    for v in vs { out.push(Call::Fold(acc.clone(), v.0.clone())); acc.push(FOLD_MARK); acc.extend_from_slice(&v.0); }
    out
}
fn calls(c: &mut Case, what: &str, want: Vec<Call>) {
    let got = log_take();
    check!(got == want, "{what}: calls of the user's functions: {:x?}, expected {:x?}", &got[..got.len().min(8)], &want[..want.len().min(8)]);
    c.count("accesses_logged", 1);
    c.count("calls_logged", got.len() as u64);
}
/// Init once and fold once per value, in order, for each delivered element; nothing else.
fn fold_log(c: &mut Case, all: &[usize], t: &dyn Reg, m: &MModel) {
    let (w, d) = (t.w(), t.d());
    log_on(true);
    let n = c.sz(6, 30);
    for k in probes(&mut c.rng, m, all, w, d, n) {
        let want = m.get(&k);
        let g = t.get(k);
        check!(g == want.map(|v| fold_of(v)), "fold get({k}): {g:x?}");
        calls(c, &format!("get({k})"), want.map(|v| chain(v)).unwrap_or_default());
        if let Some(v) = want {
            let g = unsafe { t.get_u(k) };
            check!(g == fold_of(v), "fold get_unchecked({k}): {g:x?}");
            calls(c, &format!("get_unchecked({k})"), chain(v));
        }
    }
    for lending in [false, true] {
        let mut it = t.iter();
        calls(c, "creating an iterator", vec![]);
        let stop = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.below(m.len() + 1) };
        for (i, (k, v)) in m.iter().enumerate() {
            if i == stop { break; }
            let g = it.next(lending);
            check!(g == Some((*k, fold_of(v))), "fold iteration: {g:x?}, expected index {k}");
            calls(c, &format!("iteration step at {k} (lending={lending})"), chain(v));
        }
        if stop >= m.len() {
            check!(it.next(lending).is_none(), "fold iteration yields more than its source");
            calls(c, "the end of the iteration", vec![]);
        }
    }
    let keys: Vec<usize> = m.keys().copied().collect();
    let mut cur = t.cursor();
    calls(c, "creating a cursor", vec![]);
    for _ in 0..c.sz(4, 14) {
        let k = if keys.is_empty() || c.rng.chance(1, 4) { c.rng.below(range_end(w, d)) } else { *c.rng.pick(&keys) };
        let dg = digits(k, w, d);
        unsafe { cur.select(0, 0, false); for l in 1..d { cur.select(l, dg[l - 1], false); } }
        calls(c, "selecting nodes", vec![]);
        for j in 0..3 {
            let i = if j == 0 { dg[d - 1] } else { c.rng.below(w) };
            let key = k - dg[d - 1] + i;
            if key >= range_end(w, d) { continue; }
            let want = m.get(&key);
            let g = unsafe { cur.data(i) };
            check!(g == want.map(|v| fold_of(v)), "fold cursor data({key}): {g:x?}");
            calls(c, &format!("cursor data({key})"), want.map(|v| chain(v)).unwrap_or_default());
            if let Some(v) = want {
                let g = unsafe { cur.data_u(i) };
                check!(g == fold_of(v), "fold cursor data_unchecked({key}): {g:x?}");
                calls(c, &format!("cursor data_unchecked({key})"), chain(v));
            }
        }
    }
    log_on(false);
}
fn foldf(c: &mut Case) {
    let (o, n, pick) = setup(c, c.no / ITERS % 2 == 1);
    let form = c.no / ITERS % 4;
    // the inner functions of lazy operands would log too
    let logged = pick < 17;
    macro_rules! one { ($n:expr, $t:expr, $mm:expr, $cnt:expr) => {{
        let t = $t; let m = m_fold(&$mm);
        c.label = format!("multi_map_fold({}) of {} over {} and {}", $n, $cnt, <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
        c.log(|| format!("multi_map_fold({}) of {}: {} elements expected", $n, $cnt, m.len()));
        let np = c.sz(8, 40);
        let p = probes(&mut c.rng, &m, &o.all, Shape::w(&t), Shape::d(&t), np);
        check_all(c, &t, &m, &p, if c.scale == 0 { 5 } else { 20 });
        if logged { fold_log(c, &o.all, &t, &$mm); }
        c.count("expressions", 1);
        c.state_if(!m.is_empty(), shape_hash(&m, salt(pick + 32 * form) ^ ($cnt as u64) << 40));
    }} }
    macro_rules! go { ($n:expr, $it:expr, $ms:expr) => {{
        let ms: Vec<RM> = $ms;
        match form {
            0 => { let mm = m_multi_union(&ms); one!(concat!("multi_union: ", $n), multi_map_fold(multi_union($it), Init, FoldEnc), mm, ms.len()) }
            1 => { let mm = m_multi_inter(&ms); one!(concat!("multi_intersection: ", $n), multi_map_fold(multi_intersection($it), Init, FoldEnc), mm, ms.len()) }
            2 => { let mm = m_multi_union(&ms); one!(concat!("multi_union.map_fold: ", $n), multi_union($it).map_fold(Init, FoldEnc), mm, ms.len()) }
            _ => { let mm = m_multi_inter(&ms); one!(concat!("multi_intersection.map_fold: ", $n), multi_intersection($it).map_fold(Init, FoldEnc), mm, ms.len()) }
        }
    }} }
    iters!(c, o, n, pick, go)
}
/// Closures, and an initial value which differs at every call: it has to be made anew for each element.
fn foldf_fresh(c: &mut Case) {
    let n = count(c);
    let o = ops(c, n, 1, true);
    let made = std::cell::Cell::new(0u64);
    macro_rules! go { ($n:literal, $t:expr, $mm:expr) => {{
        let mm: MModel = $mm;
        let t = $t;
        c.label = format!("{} of {n} over {}", $n, <A as TTree<u64>>::name());
        made.set(0);
        let mut i = 0;
        for (k, (id, sum, cnt)) in HibitTree::iter(&t) {
            i += 1;
            check!(id == i && made.get() == i, "element {k}: started from initial value #{id}, expected #{i}, {} were made", made.get());
            let v = mm.get(&k);
            check!(v.is_some(), "iteration yields extra index {k}");
            let v = v.unwrap();
            let want = v.iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(x.0[0]));
            check!(sum == want && cnt == v.len(), "element {k}: fold {sum:x} over {cnt} values, expected {want:x} over {}", v.len());
        }
        check!(i as usize == mm.len(), "iteration yields {i} elements of {}", mm.len());
        let want: Vec<usize> = mm.keys().copied().collect();
        for k in want.iter().take(30) {
            let n0 = made.get();
            let (id, _, _) = t.get(*k).unwrap();
            check!(id == n0 + 1 && made.get() == n0 + 1, "get({k}): initial value #{id} after #{n0}");
        }
        c.count("values_judged", mm.values().map(|v| v.len() as u64).sum());
        c.state_if(!mm.is_empty(), shape_hash(&mm, salt(77) ^ (n as u64) << 40));
    }} }
    let init = || { made.set(made.get() + 1); (made.get(), 7u64, 0usize) };
    let f = |(id, a, n): (u64, u64, usize), x: &u64| (id, a.wrapping_mul(31).wrapping_add(*x), n + 1);
    if c.no % 2 == 0 { go!("multi_union, closures", multi_map_fold(multi_union(o.a.iter()), init, f), m_multi_union(&o.ma)) }
    else { go!("multi_intersection, closures", multi_intersection(o.a.iter()).map_fold(init, f), m_multi_inter(&o.ma)) }
}

// ---- multi trees as operands of intersection and union ----
fn items<I: Iterator>(it: I) -> Vec<R> where I::Item: repr::Repr { it.map(|x| repr::r(&x)).collect() }
/// intersection(multi_*, tree) and union(multi_*, tree): the data are (iterator, value).
fn zoo_bare(c: &mut Case) {
    let n = count(c).min(12);
    let o = ops(c, n, 2, true);
    let (w, d) = (<A as TTree<u64>>::width(), <A as TTree<u64>>::depth());
    type Side = Option<Vec<R>>;
    type M2 = std::collections::BTreeMap<usize, (Side, Side)>;
    let one = |m: &RM| -> MModel { m.iter().map(|(k, v)| (*k, vec![v.clone()])).collect() };
    let inter = |x: &MModel, y: &MModel| -> M2 { x.iter().filter_map(|(k, v)| y.get(k).map(|u| (*k, (Some(v.clone()), Some(u.clone()))))).collect() };
    let uni = |x: &MModel, y: &MModel| -> M2 { x.keys().chain(y.keys()).map(|k| (*k, (x.get(k).cloned(), y.get(k).cloned()))).collect() };
    macro_rules! go { ($n:literal, $t:expr, $m:expr, $l:expr, $r:expr) => {{
        let t = $t; let m: M2 = $m;
        // how each side is read
        let see = |x: _, y: _| -> (Side, Side) { ($l(x), $r(y)) };
        c.label = format!("{} of {n} over {} and {}", $n, <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
        c.log(|| c_label($n, m.len()));
        for k in probes(&mut c.rng, &m, &o.all, w, d, 40) {
            let g = t.get(k).map(|(x, y)| see(x, y));
            check!(g.as_ref() == m.get(&k), "{} get({k}): got {g:x?}, expected {:x?}", $n, m.get(&k));
        }
        let mut cur = <_ as HibitTree2>::cur(&t);
        for (k, v) in m.iter().take(40) {
            let g = { let (x, y) = unsafe { t.get_unchecked(*k) }; ($l(x), $r(y)) };
            check!(g == *v, "{} get_unchecked({k}): got {g:x?}, expected {v:x?}", $n);
            let dg = digits(*k, w, d);
            unsafe {
                select(&mut cur, &t, 0, 0, false);
                for l in 1..d { select(&mut cur, &t, l, dg[l - 1], k % 2 == 0); }
                let g = cur.data(&t, dg[d - 1]).map(|(x, y)| ($l(x), $r(y)));
                check!(g.as_ref() == Some(v), "{} cursor data({k}): got {g:x?}, expected {v:x?}", $n);
                let g = { let (x, y) = cur.data_unchecked(&t, dg[d - 1]); ($l(x), $r(y)) };
                check!(g == *v, "{} cursor data_unchecked({k}): got {g:x?}, expected {v:x?}", $n);
                let i = (dg[d - 1] + 1) % w;
                let key = k - dg[d - 1] + i;
                let g = cur.data(&t, i).map(|(x, y)| ($l(x), $r(y)));
                check!(g.as_ref() == m.get(&key), "{} cursor data({key}): got {g:x?}, expected {:x?}", $n, m.get(&key));
            }
            c.count("cursor_reads", 3);
        }
        let mut it = HibitTree::iter(&t);
        let mut want = m.iter();
        loop {
            let g = hibit_tree::utils::LendingIterator::next(&mut it).map(|(k, (x, y))| (k, ($l(x), $r(y))));
            let e = want.next().map(|(k, v)| (*k, v.clone()));
            check!(g == e, "{} iteration: got {g:x?}, expected {e:x?}", $n);
            if g.is_none() { break; }
            c.count("iterated", 1);
        }
        walk_tree(c, &t, &m);
        c.count("expressions", 1);
        c.state_if(!m.is_empty(), shape_hash(&m, salt(200)));
    }} }
    let (mu, mi) = (m_multi_union(&o.ma), m_multi_inter(&o.ma));
    match c.no % 8 {
        0 => go!("munion & b", intersection(multi_union(o.a.iter()), &o.b[0]), inter(&mu, &one(&o.mb[0])), |x| Some(items(x)), |y| Some(vec![repr::r(&y)])),
        1 => go!("b & minter", intersection(&o.b[0], multi_intersection(o.a.iter())), inter(&one(&o.mb[0]), &mi), |x| Some(vec![repr::r(&x)]), |y| Some(items(y))),
        2 => go!("munion | b", union(multi_union(o.a.iter()), &o.b[0]), uni(&mu, &one(&o.mb[0])), |x: Option<_>| x.map(items), |y: Option<_>| y.map(|y| vec![repr::r(&y)])),
        3 => go!("b | minter", union(&o.b[0], multi_intersection(o.a.iter())), uni(&one(&o.mb[0]), &mi), |x: Option<_>| x.map(|y| vec![repr::r(&y)]), |y: Option<_>| y.map(items)),
        4 => go!("munion & minter", intersection(multi_union(o.a.iter()), multi_intersection(o.a.iter())), inter(&mu, &mi), |x| Some(items(x)), |y| Some(items(y))),
        5 => go!("minter | munion", union(multi_intersection(o.a.iter()), multi_union(o.b.iter())), uni(&mi, &m_multi_union(&o.mb)), |x: Option<_>| x.map(items), |y: Option<_>| y.map(items)),
        6 => { let l = multi_union(o.a.iter()); go!("&munion & &munion", intersection(&l, &l), inter(&mu, &mu), |x| Some(items(x)), |y| Some(items(y))) }
        _ => go!("minter(a) | minter(b)", union(multi_intersection(o.a.iter()), multi_intersection(o.b.iter())), uni(&mi, &m_multi_inter(&o.mb)), |x: Option<_>| x.map(items), |y: Option<_>| y.map(items)),
    }
}
/// Operand iterators that yield other trees at every pass: what comes out is unspecified, but safe code stays safe.
fn ub_shift(c: &mut Case) {
    let k = c.rng.range(1, 5);
    let n = if c.scale == 0 { k } else { *c.rng.pick(&[1, 2, 3, 6, 32]) };
    let o = ops(c, n, 1, true);
    let rng = std::cell::RefCell::new(rng::Rng::new(c.rng.u64()));
    let keep = std::cell::Cell::new(4usize);
    let sel = || o.a.iter().filter(|_| rng.borrow_mut().chance(keep.get(), 4));
    c.label = format!("{n} operands of {}, others at every pass", <A as TTree<u64>>::name());
    let all: std::collections::HashSet<&Vec<u64>> = o.ma.iter().flat_map(|m| m.values().map(|v| &v.0)).collect();
    let steps = c.sz(12, 60);
    use hibit_tree::utils::LendingIterator;
    macro_rules! go { ($name:expr, $t:expr) => {{
        keep.set(4);
        let t = $t;
        let mut it = t.iter();
        for i in 0..steps {
            if i == steps / 4 { keep.set(c.rng.below(5)) }
            if c.rng.chance(1, 6) { it = t.iter() }
            let Some((_, d)) = LendingIterator::next(&mut it) else { break };
            c.count("values_of_shifting_operands", if i % 2 == 0 { d.fold(0, |n, x| { std::hint::black_box(repr::r(&x)); n + 1 }) } else { d.map(|x| std::hint::black_box(repr::r(&x))).count() } as u64);
        }
        keep.set(3);
        let end = range_end(t.w(), t.d());
        for _ in 0..steps {
            let i = if c.rng.chance(1, 2) { *c.rng.pick(&o.all) } else { c.rng.below(end) };
            if let Some(d) = t.get(i) { for x in d { check!(all.contains(&repr::r(&x).0), "{}: a value that no operand holds", $name); } }
        }
        keep.set(4);
        let s = salt(300) ^ $name.len() as u64;
        walk_tree_unjudged(c, &t, &keep, end);
        c.state(o.ma.iter().fold(s, |h, m| rng::mix2(h, shape_hash(m, 0))));
    }} }
    go!("multi_intersection", multi_intersection(sel()));
    go!("multi_union", multi_union(sel()));
    keep.set(4);
    let f = multi_map_fold(multi_union(sel()), || 0u64, |s: u64, v: &u64| s.wrapping_add(*v));
    let mut it = HibitTree::iter(&f);
    for _ in 0..steps { keep.set(c.rng.below(5)); if Iterator::next(&mut it).is_none() { break } }
    let f = multi_map_fold(multi_intersection(sel()), || 0u64, |s: u64, v: &u64| s.wrapping_add(*v));
    keep.set(4);
    let mut it = HibitTree::iter(&f);
    for _ in 0..steps { keep.set(c.rng.below(5)); if Iterator::next(&mut it).is_none() { break } }
}
fn walk_tree_unjudged<T: HibitTree>(c: &mut Case, t: &T, keep: &std::cell::Cell<usize>, _end: usize) {
    let mut cur = <T as HibitTreeTypes<'_>>::Cursor::new(t);
    let (w, d) = (t.w(), t.d());
    for _ in 0..c.sz(3, 10) {
        let mut none = false;
        for l in 0..d {
            keep.set(c.rng.below(5));
            let i = if l == 0 { 0 } else { c.rng.below(w) };
            let m = unsafe { select(&mut cur, t, l, i, false) };
            none = m.is_empty();
        }
        if !none { std::hint::black_box(unsafe { cur.data(t, c.rng.below(w)) }.is_some()); }
    }
}
trait HibitTree2: HibitTree { fn cur(&self) -> <Self as HibitTreeTypes<'_>>::Cursor { HibitTreeCursor::new(self) } }
impl<T: HibitTree> HibitTree2 for T {}
fn c_label(n: &str, len: usize) -> String { format!("{n}: {len} elements expected") }
fn walk_tree<T: HibitTree, M>(c: &mut Case, t: &T, m: &Map<M>) {
    for unchecked in [false, true] {
        let mut cur = <T as HibitTreeTypes<'_>>::Cursor::new(t);
        walk(c, &mut |l, i| unsafe { select(&mut cur, t, l, i, unchecked) }, (t.w(), t.d(), t.exact()), m);
    }
}

// ---- panics of the operand iterator, the functions, and (bins *_gh) the operands ----
struct Fussy<'a, T>(std::slice::Iter<'a, T>);
impl<T> Clone for Fussy<'_, T> { fn clone(&self) -> Self { vals::tick(); Fussy(self.0.clone()) } }
impl<'a, T> Iterator for Fussy<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { vals::tick(); self.0.next() } }
fn panic_multi(c: &mut Case) {
    let n = count(c);
    let o = ops(c, n, 2, c.no % 2 == 1);
    let it = || Fussy(o.a.iter());
    let (mi, mu) = (m_multi_inter(&o.ma), m_multi_union(&o.ma));
    vals::reset_ledger();
    macro_rules! go { ($n:literal, $t:expr, $m:expr) => {{
        let t = $t; let m: RM = $m;
        c.label = format!("{} of {n} over {}, panics", $n, <A as TTree<u64>>::name());
        cases::access_panics(c, &t, &m, &o.all, salt(900 + c.no % 6));
    }} }
    match c.no / 2 % 3 {
        0 => if c.no % 2 == 0 { go!("fold of multi_union", multi_map_fold(multi_union(it()), Init, FoldEnc), m_fold(&mu)) } else { go!("fold of multi_intersection", multi_map_fold(multi_intersection(it()), Init, FoldEnc), m_fold(&mi)) },
        1 => {
            let x = (e_fold!((multi_union(it()), mu.clone())), e_fold!((multi_intersection(it()), mi.clone())));
            if c.no % 2 == 0 { let (t, m) = e_union!(x.0, x.1); go!("union of folds", t, m) } else { let (t, m) = e_inter!(x.0, x.1); go!("intersection of folds", t, m) }
        }
        _ => {
            // folds as operands of a multi tree
            let x = [multi_map_fold(multi_union(it()), Init, FoldEnc), multi_map_fold(multi_union(it()), Init, FoldEnc)];
            let f = m_fold(&mu);
            if c.no % 2 == 0 { go!("multi_union of folds", multi_map_fold(multi_union(Fussy(x.iter())), Init, FoldEnc), m_fold(&m_multi_union(&[f.clone(), f]))) }
            else { go!("multi_intersection of folds", multi_map_fold(multi_intersection(Fussy(x.iter())), Init, FoldEnc), m_fold(&m_multi_inter(&[f.clone(), f]))) }
        }
    }
    for (t, m) in o.a.iter().zip(&o.ma) { check_iter(c, t, m); }
}

pub const SC: &[Scenario] = &[("panic_multi", 24, panic_multi), ("minter_forms", 60, minter), ("munion_forms", 60, munion), ("foldf_forms", 80, foldf), ("foldf_fresh", 8, foldf_fresh), ("zoo_bare", 24, zoo_bare), ("ub_shift", 24, ub_shift)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
