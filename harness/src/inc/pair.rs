// Pair operations over operands of types A and B (equal shape), by value and by reference, concrete and lazy.
use hh::checks::*;
use hh::dynt::*;
use hh::gen::*;
use hh::run::*;
use hh::trees::*;
use hh::*;
use hibit_tree::{intersection, map, union, DenseTree, HibitTree, HibitTreeCursor, RegularHibitTree};

const N: usize = 4;
struct Ops { all: Vec<usize>, a: Vec<A>, ma: Vec<RM>, b: Vec<B>, mb: Vec<RM> }
fn ops(c: &mut Case, cap: usize) -> Ops {
    let (all, mut a, mut ma, mut b, mut mb) = two_kinds::<A, B>(c, cap, N, N);
    // empty operands, in all positions
    if c.rng.chance(1, 6) {
        let i = c.rng.below(N);
        if c.rng.chance(1, 2) { a[i] = A::default(); ma[i] = RM::new(); } else { b[i] = B::default(); mb[i] = RM::new(); }
    }
    Ops { all, a, ma, b, mb }
}
fn salt(pick: usize) -> u64 { (<A as TTree<u64>>::width() * 4096 + <A as TTree<u64>>::depth() * 256 + pick) as u64 }
fn judge(c: &mut Case, what: &str, all: &[usize], t: &dyn Reg, m: &RM, s: u64) {
    c.label = format!("{what} over {} and {}", <A as TTree<u64>>::name(), <B as TTree<u64>>::name());
    c.log(|| format!("{what}: {} elements expected", m.len()));
    let n = c.sz(10, 60);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), n);
    check!(t.range() == range_end(t.w(), t.d()), "index_range of {what} ends at {}", t.range());
    check_all(c, t, m, &p, if c.scale == 0 { 6 } else { 30 });
    for &k in p.iter().take(12) { check!(t.get_ix(k).as_ref() == m.get(&k), "get(Index({k})) disagrees with get({k})"); }
    check_iter_mix(c, t, m, if c.scale == 0 { 10 } else { 40 });
    c.count("expressions", 1);
    c.state_if(!m.is_empty(), shape_hash(m, s));
}
/// value operands: a second tree of the same contents, of another history
fn again<T: TTree<u64>>(c: &mut Case, m: &RM, all: &[usize], tag: usize) -> T {
    let ks: Vec<usize> = m.keys().copied().collect();
    build::<T>(c, &ks, all, tag).0
}
macro_rules! forms {
    ($c:ident, $o:ident, $op:ident, $model:ident, $name:literal) => {{
        let Ops { all, a, ma, b, mb } = &$o;
        let pick = $c.no % 22;
        macro_rules! go { ($n:literal, $t:expr, $m:expr) => {{ let t = $t; let m = $m; judge($c, concat!($name, "(", $n, ")"), all, &t, &m, salt(pick)) }} }
        macro_rules! own { (a $i:expr) => { again::<A>($c, &ma[$i], all, $i) }; (b $i:expr) => { again::<B>($c, &mb[$i], all, N + $i) } }
        match pick {
            0 => go!("&a, &a", $op(&a[0], &a[1]), $model(&ma[0], &ma[1])),
            1 => go!("&a, &b", $op(&a[0], &b[0]), $model(&ma[0], &mb[0])),
            2 => go!("&b, &a", $op(&b[0], &a[0]), $model(&mb[0], &ma[0])),
            3 => go!("&b, &b", $op(&b[0], &b[1]), $model(&mb[0], &mb[1])),
            4 => go!("a, &b", $op(own!(a 0), &b[0]), $model(&ma[0], &mb[0])),
            5 => go!("&a, b", $op(&a[0], own!(b 0)), $model(&ma[0], &mb[0])),
            6 => go!("a, b", $op(own!(a 0), own!(b 0)), $model(&ma[0], &mb[0])),
            7 => go!("b, a", $op(own!(b 0), own!(a 1)), $model(&mb[0], &ma[1])),
            8 => go!("a, a", $op(own!(a 0), own!(a 1)), $model(&ma[0], &ma[1])),
            9 => go!("same &a twice", $op(&a[0], &a[0]), $model(&ma[0], &ma[0])),
            10 => go!("same &b twice", $op(&b[0], &b[0]), $model(&mb[0], &mb[0])),
            11 => go!("map a, &b", $op(map(&a[0], Enc), &b[0]), $model(&m_map(&ma[0]), &mb[0])),
            12 => { let l = map(&b[1], Enc); go!("&map b, &a", $op(&l, &a[0]), $model(&m_map(&mb[1]), &ma[0])) }
            13 => go!("a&b, a&b", $op(intersection(&a[0], &b[0]), intersection(&a[1], &b[1])), $model(&m_inter(&ma[0], &mb[0]), &m_inter(&ma[1], &mb[1]))),
            14 => { let l = union(&a[0], &b[0]); go!("&(a|b), &(a|b) again", $op(&l, &l), { let x = m_union(&ma[0], &mb[0]); $model(&x, &x) }) }
            15 => { let l = intersection(own!(a 2), &b[2]); go!("a|b, &(a&b)", $op(union(&a[0], own!(b 0)), &l), $model(&m_union(&ma[0], &mb[0]), &m_inter(&ma[2], &mb[2]))) }
            16 => go!("&a, a|(b&a)", $op(&a[0], union(&a[1], intersection(&b[0], &a[2]))), $model(&ma[0], &m_union(&ma[1], &m_inter(&mb[0], &ma[2])))),
            17 => go!("fold munion, &b", $op(hibit_tree::multi_map_fold(hibit_tree::multi_union(a[..3].iter()), Init, FoldEnc), &b[0]),
                $model(&m_fold(&m_multi_union(&ma[..3])), &mb[0])),
            18 => go!("&a, fold minter", $op(&a[3], hibit_tree::multi_map_fold(hibit_tree::multi_intersection(b[..2].iter()), Init, FoldEnc)),
                $model(&ma[3], &m_fold(&m_multi_inter(&mb[..2])))),
            // every operand empty in turn
            19 => go!("empty, &b", $op(A::default(), &b[0]), $model(&RM::new(), &mb[0])),
            20 => go!("&a, empty", $op(&a[0], B::default()), $model(&ma[0], &RM::new())),
            _ => go!("empty, empty", $op(A::default(), B::default()), RM::new()),
        }
    }};
}
fn inter(c: &mut Case) { let cap = if c.scale == 0 { 20 } else { *c.rng.pick(&[40, 140, 600]) }; let o = ops(c, cap); forms!(c, o, intersection, m_inter, "intersection") }
fn uni(c: &mut Case) { let cap = if c.scale == 0 { 20 } else { *c.rng.pick(&[40, 140, 600]) }; let o = ops(c, cap); forms!(c, o, union, m_union, "union") }

/// Operands which are all the same size class and very unequal.
fn lopsided(c: &mut Case, f: &mut dyn FnMut(&mut Case, &Ops)) {
    let mut o = ops(c, 1500);
    // one has few elements of the other's nodes
    let few: Vec<usize> = { let n = c.rng.range(1, 4); (0..n).map(|_| { let k = *c.rng.pick(&o.all); if c.rng.chance(1, 2) { keys::near(&mut c.rng, k, <A as TTree<u64>>::width(), <A as TTree<u64>>::depth()) } else { k } }).collect() };
    let mut few = few; few.sort(); few.dedup();
    let (t, m) = build::<A>(c, &few, &o.all, 0);
    o.a[0] = t; o.ma[0] = m;
    f(c, &o)
}
fn inter_lop(c: &mut Case) {
    lopsided(c, &mut |c, o| {
        judge(c, "intersection(&few, &many)", &o.all, &intersection(&o.a[0], &o.b[0]), &m_inter(&o.ma[0], &o.mb[0]), salt(100));
        judge(c, "intersection(&many, &few)", &o.all, &intersection(&o.b[0], &o.a[0]), &m_inter(&o.mb[0], &o.ma[0]), salt(101));
    })
}
fn uni_lop(c: &mut Case) {
    lopsided(c, &mut |c, o| {
        judge(c, "union(&few, &many)", &o.all, &union(&o.a[0], &o.b[0]), &m_union(&o.ma[0], &o.mb[0]), salt(100));
        judge(c, "union(&many, &few)", &o.all, &union(&o.b[0], &o.a[0]), &m_union(&o.mb[0], &o.ma[0]), salt(101));
    })
}

// ---- map ----
fn calls<'a>(c: &mut Case, what: &str, want: impl IntoIterator<Item = &'a Vec<Call>>) {
    // which calls, of a nested expression too; what order they come in is left open
    let mut got = log_take();
    let mut w: Vec<Call> = want.into_iter().flatten().cloned().collect();
    got.sort(); w.sort();
    check!(got == w, "{what}: the function was called with {:x?}, expected {:x?}", &got[..got.len().min(6)], &w[..w.len().min(6)]);
    c.count("accesses_logged", 1);
    c.count("calls_logged", got.len() as u64);
}
/// One call per delivered element, with that element's value; none for absent indices.
fn call_log(c: &mut Case, all: &[usize], t: &dyn Reg, src: &RM) {
    let exp = src.iter().map(|(k, v)| (*k, vec![Call::Map(v.0.clone())])).collect();
    call_log_of(c, all, t, src, &exp)
}
type Calls = std::collections::BTreeMap<usize, Vec<Call>>;
/// `exp`: the calls one access to an element makes, of all functions in the expression
fn call_log_of(c: &mut Case, all: &[usize], t: &dyn Reg, src: &RM, exp: &Calls) {
    let (w, d) = (t.w(), t.d());
    log_on(true);
    let n = c.sz(8, 40);
    for k in probes(&mut c.rng, src, all, w, d, n) {
        let want = src.get(&k);
        let g = t.get(k);
        check!(g == want.map(map_of), "map get({k}): {g:x?}");
        calls(c, &format!("get({k})"), exp.get(&k));
        if let Some(v) = want {
            let g = unsafe { t.get_u(k) };
            check!(g == map_of(v), "map get_unchecked({k}): {g:x?}");
            calls(c, &format!("get_unchecked({k})"), exp.get(&k));
        }
    }
    // iteration: one call per step, none at the end
    for lending in [false, true] {
        let mut it = t.iter();
        calls(c, "creating an iterator", None);
        let stop = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.below(src.len() + 1) };
        for (i, (k, v)) in src.iter().enumerate() {
            if i == stop { break; }
            let g = it.next(lending);
            check!(g == Some((*k, map_of(v))), "map iteration: {g:x?}, expected index {k}");
            calls(c, &format!("iteration step at {k} (lending={lending})"), exp.get(k));
        }
        if stop >= src.len() {
            check!(it.next(lending).is_none(), "map iteration yields more than its source");
            calls(c, "the end of the iteration", None);
        }
        drop(it);
        calls(c, "dropping an iterator", None);
    }
    let v = t.iter().fold();
    check!(v.len() == src.len() && v.iter().zip(src).all(|(g, m)| g.0 == *m.0 && g.1 == map_of(m.1)), "map fold differs");
    calls(c, "folding an iteration", exp.values());
    // cursor
    let keys: Vec<usize> = src.keys().copied().collect();
    let mut cur = t.cursor();
    calls(c, "creating a cursor", None);
    for _ in 0..c.sz(4, 16) {
        let k = if keys.is_empty() || c.rng.chance(1, 4) { c.rng.below(range_end(w, d)) } else { *c.rng.pick(&keys) };
        let dg = digits(k, w, d);
        unsafe { cur.select(0, 0, false); for l in 1..d { cur.select(l, dg[l - 1], false); } }
        calls(c, "selecting nodes", None);
        for j in 0..3 {
            let i = if j == 0 { dg[d - 1] } else { c.rng.below(w) };
            let key = k - dg[d - 1] + i;
            if key >= range_end(w, d) { continue; }
            let want = src.get(&key);
            let g = unsafe { cur.data(i) };
            check!(g == want.map(map_of), "map cursor data({key}): {g:x?}");
            calls(c, &format!("cursor data({key})"), exp.get(&key));
            if let Some(v) = want {
                let g = unsafe { cur.data_u(i) };
                check!(g == map_of(v), "map cursor data_unchecked({key}): {g:x?}");
                calls(c, &format!("cursor data_unchecked({key})"), exp.get(&key));
            }
        }
    }
    log_on(false);
}
fn plus(v: &u64) -> u64 { v.wrapping_add(77) }
/// map function with state: how often it was called.
struct Counted<'a>(&'a std::cell::Cell<u64>);
impl<'a, 'b> hibit_tree::utils::UnaryFunction<&'b u64> for Counted<'a> {
    type Output = &'b u64;
    fn exec(&self, v: &'b u64) -> &'b u64 { self.0.set(self.0.get() + 1); v }
}
fn mapf(c: &mut Case) {
    let cap = if c.scale == 0 { 20 } else { *c.rng.pick(&[40, 140, 600]) };
    let o = ops(c, cap);
    let Ops { all, a, ma, b, mb } = &o;
    let pick = c.no % 24;
    macro_rules! go { ($n:literal, $t:expr, $src:expr) => {{
        let t = $t; let src = $src; let m = m_map(&src);
        judge(c, $n, all, &t, &m, salt(pick));
        call_log(c, all, &t, &src);
    }} }
    macro_rules! plain { ($n:literal, $t:expr, $f:expr) => {{
        let t = $t;
        let m: RM = ma[0].iter().map(|(k, v)| (*k, repr::R(vec![($f)(v.0[0])]))).collect();
        judge(c, $n, all, &t, &m, salt(pick));
    }} }
    match pick {
        0 => go!("map(&a)", map(&a[0], Enc), ma[0].clone()),
        1 => go!("map(&b)", map(&b[0], Enc), mb[0].clone()),
        2 => go!("map(a)", map(again::<A>(c, &ma[0], all, 0), Enc), ma[0].clone()),
        3 => go!("a.map()", again::<A>(c, &ma[0], all, 0).map(Enc), ma[0].clone()),
        4 => go!("b.map_ref()", b[0].map_ref(Enc), mb[0].clone()),
        5 => go!("map(a & b)", map(intersection(&a[0], &b[0]), Enc), m_inter(&ma[0], &mb[0])),
        6 => { let l = union(&a[0], &b[0]); go!("(a | b).map_ref()", l.map_ref(Enc), m_union(&ma[0], &mb[0])) }
        7 => go!("(a | b).map()", union(&a[0], &b[0]).map(Enc), m_union(&ma[0], &mb[0])),
        8 => go!("map(id(a))", map(map(&a[0], Ident), Enc), ma[0].clone()),
        9 => { let l = intersection(&b[0], union(&a[1], &b[1])); go!("map(&(b & (a | b)))", map(&l, Enc), m_inter(&mb[0], &m_union(&ma[1], &mb[1]))) }
        10 => plain!("closure", map(&a[0], |v: &u64| v ^ 0x55), |v: u64| v ^ 0x55),
        11 => plain!("fn pointer", map(&a[0], plus as fn(&u64) -> u64), |v: u64| v.wrapping_add(77)),
        12 => plain!("fn item", a[0].map_ref(plus), |v: u64| v.wrapping_add(77)),
        13 => { let k = c.rng.u64(); plain!("capturing closure", map(&a[0], move |v: &u64| v.rotate_left(9) ^ k), |v: u64| v.rotate_left(9) ^ k) }
        14 => {
            // the function's own state is the caller's
            let n = std::cell::Cell::new(0);
            let t = map(&a[0], Counted(&n));
            judge(c, "map(&a, counting)", all, &t, &ma[0], salt(pick));
            n.set(0);
            let len = HibitTree::iter(&t).map(|x| x.0).count();
            check!(n.get() == len as u64 && len == ma[0].len(), "iteration of {len} elements called the function {} times", n.get());
        }
        15 => go!("map(empty)", map(A::default(), Enc), RM::new()),
        16 => go!("map(intersection with empty)", map(intersection(&a[0], B::default()), Enc), RM::new()),
        // functions of inner maps are called once per access too
        18 => {
            let t = map(map(&a[0], Enc), Enc); let src = m_map(&ma[0]);
            judge(c, "map(map(&a))", all, &t, &m_map(&src), salt(pick));
            let exp = ma[0].iter().map(|(k, v)| (*k, vec![Call::Map(v.0.clone()), Call::Map(map_of(v).0)])).collect();
            call_log_of(c, all, &t, &src, &exp);
        }
        19 => {
            let l = map(&b[0], Enc); let t = l.map_ref(Enc).map(Enc); let src = m_map(&m_map(&mb[0]));
            judge(c, "map(b).map_ref().map()", all, &t, &m_map(&src), salt(pick));
            let exp = mb[0].iter().map(|(k, v)| { let x = map_of(v); (*k, vec![Call::Map(v.0.clone()), Call::Map(x.0.clone()), Call::Map(map_of(&x).0)]) }).collect();
            call_log_of(c, all, &t, &src, &exp);
        }
        20 => {
            let t = map(union(map(&a[0], Enc), map(&b[0], Enc)), Enc);
            let (x, y) = (m_map(&ma[0]), m_map(&mb[0]));
            let src = m_union(&x, &y);
            judge(c, "map(map a | map b)", all, &t, &m_map(&src), salt(pick));
            let exp = src.iter().map(|(k, v)| {
                let mut e = vec![Call::Map(v.0.clone())];
                e.extend([ma[0].get(k), mb[0].get(k)].into_iter().flatten().map(|v| Call::Map(v.0.clone())));
                (*k, e)
            }).collect();
            call_log_of(c, all, &t, &src, &exp);
        }
        21 => {
            // (operands with the same indices: whether an intersection asks one operand for what the other lacks is open)
            let ks: Vec<usize> = ma[0].keys().copied().collect();
            let (k2, mk) = build::<A>(c, &ks, all, 5);
            let t = map(intersection(map(&a[0], Enc), map(k2, Enc)), Enc);
            let src = m_inter(&m_map(&ma[0]), &m_map(&mk));
            judge(c, "map(map a & map a)", all, &t, &m_map(&src), salt(pick));
            let exp = src.iter().map(|(k, v)| (*k, vec![Call::Map(v.0.clone()), Call::Map(ma[0][k].0.clone()), Call::Map(mk[k].0.clone())])).collect();
            call_log_of(c, all, &t, &src, &exp);
        }
        22 | 23 => {
            let mut n = 0;
            let mm = m_multi_union(&ma[..3]);
            let src = m_fold(&mm);
            let exp = mm.iter().map(|(k, vs)| {
                let mut e = vec![Call::Init];
                for i in 0..vs.len() { e.push(Call::Fold(fold_of(&vs[..i]).0, vs[i].0.clone())); n += 1; }
                e.push(Call::Map(src[k].0.clone()));
                (*k, e)
            }).collect();
            c.count("nested_fold_calls", n);
            let t = map(hibit_tree::multi_map_fold(hibit_tree::multi_union(a[..3].iter()), Init, FoldEnc), Enc);
            judge(c, "map(fold munion)", all, &t, &m_map(&src), salt(pick));
            call_log_of(c, all, &t, &src, &exp);
        }
        _ => {
            // two maps of one tree, with functions of their own
            let l = map(&a[0], |v: &u64| v.wrapping_mul(3));
            let t = map(union(&l, &l), Enc);
            let x: RM = ma[0].iter().map(|(k, v)| (*k, repr::R(vec![v.0[0].wrapping_mul(3)]))).collect();
            let src = m_union(&x, &x);
            judge(c, "map(&map a | &map a)", all, &t, &m_map(&src), salt(pick));
            call_log(c, all, &t, &src);
        }
    }
}
pub const SC: &[Scenario] = &[("inter_forms", 44, inter), ("inter_lop", 4, inter_lop), ("union_forms", 44, uni), ("union_lop", 4, uni_lop), ("mapf_forms", 48, mapf)];
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
