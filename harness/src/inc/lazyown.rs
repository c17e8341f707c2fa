// Lazy operations that own operands of types A and B (equal shape) of values that keep a ledger.
use hh::checks::*;
use hh::gen::*;
use hh::dynt::*;
use hh::repr::R;
use hh::run::*;
use hh::trees::*;
use hh::vals::*;
use hh::*;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, LazyHibitTree, RegularHibitTree};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn filled<T: TTree<Tracked>>(c: &mut Case, ks: &[usize], id: &mut u64) -> (T, RM) {
    let mut t = T::default();
    let mut m = RM::new();
    let mut order = ks.to_vec();
    c.rng.shuffle(&mut order);
    for &k in &order { *id += 1; t.t_insert(k, Tracked::make(*id)); m.insert(k, R(vec![*id])); }
    for &k in order.iter().take(3) {
        if c.rng.chance(1, 2) { t.t_remove(k); m.remove(&k); }
        if c.rng.chance(1, 2) { *id += 1; t.t_insert(k, Tracked::make(*id)); m.insert(k, R(vec![*id])); }
    }
    (t, m)
}
fn alive(what: &str, when: &str, want: &[u64]) {
    let got = live_ids();
    if got != want {
        let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
        let kept: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
        viol!("{what}: {when}: values {lost:x?} were dropped too early, {kept:x?} were not dropped ({} alive, expected {})", got.len(), want.len());
    }
    if let Some(f) = faults().first() { viol!("{what}: {when}: {f}"); }
}
/// `held`: alive while the operation lives; `after`: alive when it is gone.
fn judge<T: Reg>(c: &mut Case, what: &str, all: &[usize], t: T, m: &RM, held: &[u64], after: &[u64]) {
    c.label = format!("{what} over {} and {}", <A as TTree<Tracked>>::name(), <B as TTree<Tracked>>::name());
    c.log(|| format!("{} elements expected", m.len()));
    alive(what, "after building", held);
    let how = c.rng.below(5);
    let n = c.sz(6, 24);
    match how {
        0 => {}
        1 => { let mut it = t.iter(); for _ in 0..c.rng.below(m.len() + 2) { it.next(c.rng.chance(1, 2)); } }
        2 => { check_iter(c, &t, m); check_lend(c, &t, m); }
        3 => { let p = probes(&mut c.rng, m, all, t.w(), t.d(), n); check_all(c, &t, m, &p, c.sz(4, 12)); }
        _ => {
            // a user function panics in the middle
            let n = c.rng.below(m.len() * 3 + 2) as u64;
            set_fuse(n);
            let r = catch_unwind(AssertUnwindSafe(|| { let mut it = t.iter(); while it.next(false).is_some() {} }));
            clear_fuse();
            if let Err(p) = r { if !p.is::<Injected>() { std::panic::resume_unwind(p) } c.count("panics_injected", 1); }
        }
    }
    alive(what, "after use", held);
    if c.rng.chance(1, 2) { let moved = Box::new(t); drop(moved) } else { drop(t) }
    alive(what, "after dropping the operation", after);
    c.count("operations_dropped", 1);
    c.count("values_tracked", held.len() as u64);
    c.state_if(!m.is_empty(), shape_hash(m, what.bytes().fold(how as u64, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64))));
}
/// materialize consumes the operation, and so what it owns.
macro_rules! mat64 {
    ($c:ident, $pick:ident, $all:ident, $sets:ident, $id:ident, $before:ident, $ba:ident, $mba:ident, $bb:ident, $mbb:ident) => {{
        let c = &mut *$c;
        macro_rules! own { ($t:ident, $m:ident: $T:ty, $i:expr) => { let ($t, $m) = filled::<$T>(c, &$sets[$i], $id); } }
        macro_rules! go { ($n:literal, $t:expr, $m:expr) => {{
            let t = $t; let m: RM = $m;
            c.label = format!("materialized {} over {} and {}", $n, <A as TTree<Tracked>>::name(), <B as TTree<Tracked>>::name());
            // in the function, not in a later drop
            let fail = !m.is_empty() && c.rng.chance(1, 3);
            if fail { let n = c.rng.below(m.len()) as u64 + 1; set_fuse(n); }
            let r = catch_unwind(AssertUnwindSafe(|| -> M { t.materialize() }));
            let fired = clear_fuse();
            match r {
                Ok(d) => {
                    alive($n, "after materialize consumed the operation", &$before);
                    let t: &dyn Reg = &d; check_iter(c, t, &m);
                    c.count("materialized", 1);
                }
                Err(p) => { if !p.is::<Injected>() { std::panic::resume_unwind(p) } c.count("panics_injected", 1); }
            }
            // a panic in a user function does not keep the operation alive
            alive($n, if fired { "after a panic in materialize" } else { "in the end" }, &$before);
            c.state_if(!m.is_empty(), shape_hash(&m, $pick as u64 ^ (fired as u64) << 40));
        }} }
        match $pick {
            17 => { own!(x, mx: A, 2); go!("map a", map(x, Enc), m_map(&mx)) }
            18 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("map(a & b)", map(intersection(x, y), Enc), m_map(&m_inter(&mx, &my))) }
            19 => { own!(x, mx: A, 2); go!("map(a | &b)", map(union(x, &$bb), Enc), m_map(&m_union(&mx, &$mbb))) }
            20 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("map(map a | (b & &a))", map(union(map(x, Ident), intersection(y, &$ba)), Enc), m_map(&m_union(&mx, &m_inter(&my, &$mba)))) }
            _ => { own!(y, my: B, 3); go!("map(b & map a)", map(intersection(y, map(&$ba, Ident)), Enc), m_map(&m_inter(&my, &$mba))) }
        }
    }};
}
macro_rules! mat_none { ($c:ident, $($x:tt)*) => { { $c.trivial(); } } }
const N: usize = 22;
pub fn own(c: &mut Case) {
    reset_ledger();
    let cap = c.sz(10, 60);
    let (all, sets) = key_sets(c, <A as TTree<Tracked>>::width(), <A as TTree<Tracked>>::depth(), 6, cap);
    let id = &mut 0u64;
    let pick = c.no % N;
    {
        let (ba, mba) = filled::<A>(c, &sets[0], id);
        let (bb, mbb) = filled::<B>(c, &sets[1], id);
        let before = live_ids();
        macro_rules! own { ($t:ident, $m:ident: $T:ty, $i:expr) => { let ($t, $m) = filled::<$T>(c, &sets[$i], id); } }
        macro_rules! go { ($n:literal, $t:expr, $m:expr) => {{ let m = $m; let held = live_ids(); judge(c, $n, &all, $t, &m, &held, &before) }} }
        match pick {
            0 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("a & b", intersection(x, y), m_inter(&mx, &my)) }
            1 => { own!(x, mx: A, 2); go!("a & &b", intersection(x, &bb), m_inter(&mx, &mbb)) }
            2 => { own!(y, my: B, 3); go!("&a & b", intersection(&ba, y), m_inter(&mba, &my)) }
            3 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("a | b", union(x, y), m_union(&mx, &my)) }
            4 => { own!(x, mx: A, 2); go!("a | &b", union(x, &bb), m_union(&mx, &mbb)) }
            5 => { own!(y, my: B, 3); go!("&a | b", union(&ba, y), m_union(&mba, &my)) }
            6 => { own!(x, mx: A, 2); go!("map a", map(x, Ident), mx) }
            7 => { own!(y, my: B, 3); go!("b.map()", y.map(Enc), m_map(&my)) }
            8 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("map(a & (&a | b))", map(intersection(x, union(&ba, y)), Enc), m_map(&m_inter(&mx, &m_union(&mba, &my)))) }
            9 => { own!(x, mx: A, 2); own!(y, my: B, 3); go!("map a | (b & &a)", union(map(x, Ident), intersection(y, &ba)), m_union(&mx, &m_inter(&my, &mba))) }
            10 => { own!(x, mx: A, 2); own!(y, my: A, 3); go!("a & a", intersection(x, y), m_inter(&mx, &my)) }
            11 => { own!(x, mx: A, 2); own!(y, my: A, 3); own!(z, mz: B, 4); go!("(a | a) | b", union(union(x, y), z), m_union(&m_union(&mx, &my), &mz)) }
            12 | 13 => {
                own!(x, mx: A, 2); own!(y, my: B, 3); own!(x2, mx2: A, 4); own!(y2, my2: B, 5);
                let v = vec![intersection(x, y), intersection(x2, y2)];
                let mv = [m_inter(&mx, &my), m_inter(&mx2, &my2)];
                let held = live_ids();
                if pick == 12 { judge(c, "fold munion of owned a & b", &all, multi_map_fold(multi_union(v.iter()), Init, FoldEnc), &m_fold(&m_multi_union(&mv)), &held, &held) }
                else { judge(c, "fold minter of owned a & b", &all, multi_map_fold(multi_intersection(v.iter()), Init, FoldEnc), &m_fold(&m_multi_inter(&mv)), &held, &held) }
                drop(v);
                alive("vector of owned a & b", "after dropping it", &before);
            }
            14 => {
                own!(x, mx: A, 2); own!(y, my: B, 3);
                let l = union(x, y); let m = m_map(&m_union(&mx, &my));
                let held = live_ids();
                judge(c, "(a | b).map_ref()", &all, l.map_ref(Enc), &m, &held, &held);
                judge(c, "map(&(a | b))", &all, map(&l, Enc), &m, &held, &held);
                drop(l);
                alive("a | b", "after dropping it", &before);
            }
            15 => {
                // the function's state is owned as well
                own!(x, mx: A, 2);
                *id += 1; let extra = Tracked::make(*id);
                let e = *id;
                go!("map a with an owning function", map(x, move |v: &Tracked| R(vec![v.view(), extra.view()])), mx.iter().map(|(k, v)| (*k, R(vec![v.0[0], e]))).collect::<RM>())
            }
            16 => { own!(x, mx: A, 2); go!("a & a function's", intersection(map(x, Enc), map(&bb, Enc)), m_inter(&m_map(&mx), &m_map(&mbb))) }
            _ => materialized!(c, pick, all, sets, id, before, ba, mba, bb, mbb),
        }
        let t: &dyn Reg = &ba; check_iter(c, t, &mba);
        let t: &dyn Reg = &bb; check_iter(c, t, &mbb);
    }
    alive("borrowed operands", "after dropping them", &[]);
}
