//! Out of memory: one allocation fails in the middle of an operation. Safe code must then end in the way std ends (`handle_alloc_error`),
//! or go on; whoever uses the pointer that it did not get, touches memory that is not there. Each failure gets a process of its own.
use hh::alloc::{fail_in, failed, served};
use hh::rng::{mix2, Rng};
use hh::run::*;
use hibit_tree::config::*;
use hibit_tree::*;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;

struct Own;
impl<'a> utils::UnaryFunction<&'a u64> for Own { type Output = u64; fn exec(&self, x: &'a u64) -> u64 { *x } }
struct Sum;
impl<'a> utils::UnaryFunction<(&'a u64, &'a u64)> for Sum { type Output = u64; fn exec(&self, x: (&'a u64, &'a u64)) -> u64 { x.0.wrapping_add(*x.1) } }
struct Any;
impl<'a> utils::UnaryFunction<(Option<&'a u64>, Option<&'a u64>)> for Any { type Output = u64; fn exec(&self, x: (Option<&'a u64>, Option<&'a u64>)) -> u64 { x.0.copied().unwrap_or(1) ^ x.1.copied().unwrap_or(2) } }

/// Indices in a few nodes, and some anywhere.
fn key(r: &mut Rng, end: usize) -> usize {
    let near = (r.below(3) * 64 * 64 * 5 + r.below(3) * 64 + r.below(64)) % end;
    if r.chance(1, 4) { r.below(end) } else { near }
}

macro_rules! tree_ops { ($T:ty, $t:ident, $m:ident, $r:ident, $n:expr) => {
    let end = <$T>::index_range().end;
    for _ in 0..$n {
        let k = key($r, end);
        match $r.below(8) {
            0..=3 => { let v = $r.u64(); $t.insert(k, v); $m.insert(k, v); }
            4 => { *$t.get_or_insert(k) = 5; $m.insert(k, 5); }
            _ => {
                // members and others
                let k = if $r.chance(1, 2) { k } else { $m.range(k..).next().map(|x| *x.0).unwrap_or(k) };
                if $t.remove(k) != $m.remove(&k) { fatal("a tree in a process that is short of memory lost a value") }
            }
        }
    }
} }
macro_rules! same { ($t:expr, $m:expr) => { if !$t.iter().map(|(k, v)| (k, v.clone())).eq($m.iter().map(|(k, v)| (*k, v.clone()))) { fatal("a tree in a process that is short of memory has other contents") } } }

macro_rules! dense { ($f:ident, $d:literal) => {
    fn $f(r: &mut Rng, phase: &dyn Fn(usize)) {
        type T = DenseTree<u64, $d>;
        phase(0);
        let (mut a, mut ma) = (T::default(), BTreeMap::new());
        tree_ops!(T, a, ma, r, 120);
        let (mut b, mut mb) = (T::default(), BTreeMap::new());
        tree_ops!(T, b, mb, r, 60);
        same!(a, ma); same!(b, mb);
        phase(1);
        let mut e: T = map(&a, Own).materialize();
        let i: T = map(intersection(&a, &b), Sum).materialize();
        let u: T = map(union(&a, &b), Any).materialize();
        let f: T = multi_map_fold(multi_union([&a, &b, &a].into_iter()), || 0u64, |x: u64, y: &u64| x.wrapping_mul(3).wrapping_add(*y)).materialize();
        let mut me = ma.clone();
        same!(e, me);
        phase(2);
        tree_ops!(T, e, me, r, 60);
        same!(e, me);
        drop((i, u, f));
    }
} }
dense!(d1, 1); dense!(d2, 2); dense!(d3, 3); dense!(d6, 6);
macro_rules! sparse { ($f:ident, $t:ty) => {
    fn $f(r: &mut Rng, phase: &dyn Fn(usize)) {
        type T = $t;
        phase(0);
        let (mut a, mut ma) = (T::default(), BTreeMap::new());
        tree_ops!(T, a, ma, r, 120);
        same!(a, ma);
        phase(1);
        let mut b = T::default();
        for k in ma.keys() { b.insert(*k, 1) }
        if multi_map_fold(multi_intersection([&a, &b].into_iter()), || 0u64, |x: u64, y: &u64| x ^ *y).iter().count() != ma.len() { fatal("an operation in a process that is short of memory lost a value") }
        phase(2);
        tree_ops!(T, a, ma, r, 60);
        same!(a, ma);
    }
} }
sparse!(s64, SparseTree<width_64::depth_3, u64>);
sparse!(s64d, SparseTree<width_64::depth_5, u64, ReqDefault>);
#[cfg(feature = "simd")] sparse!(s256, SparseTree<width_256::depth_2, u64>);

type Work = fn(&mut Rng, &dyn Fn(usize));
const WORK: &[(&str, Work)] = &[("dense 1", d1), ("dense 2", d2), ("dense 3", d3), ("dense 6", d6), ("sparse 3", s64), ("sparse 5, defaults", s64d), #[cfg(feature = "simd")] ("sparse 256, 2", s256)];

/// Runs the work, with the n-th request from the beginning of the phase failing; prints the number of requests of each phase if none fails.
fn child(kind: usize, seed: u64, at_phase: usize, n: usize) {
    let mut r = Rng::new(seed);
    let at = [const { std::cell::Cell::new(0usize) }; 4];
    WORK[kind].1(&mut r, &|p| { at[p].set(served()); if p == at_phase { fail_in(n) } });
    let end = served();
    if at_phase < 3 && !failed() { fail_in(usize::MAX); println!("NEVER") }
    fail_in(usize::MAX);
    println!("SERVED {} {} {}", at[1].get() - at[0].get(), at[2].get() - at[1].get(), end - at[2].get());
}

fn starve(c: &mut Case) {
    let exe = std::env::current_exe().unwrap();
    let kind = c.no % WORK.len();
    c.label = format!("{}: allocations that fail", WORK[kind].0);
    let seed = c.rng.u64();
    let run = |phase: usize, n: usize| std::process::Command::new(&exe).env("RUST_BACKTRACE", "0").args(["--starve", &kind.to_string(), &seed.to_string(), &phase.to_string(), &n.to_string()]).output().unwrap();
    let whole = run(3, 0);
    let out = String::from_utf8_lossy(&whole.stdout).to_string();
    let counts: Vec<usize> = match out.lines().find_map(|l| l.strip_prefix("SERVED ")) {
        Some(l) if whole.status.success() => l.split(' ').map(|x| x.parse().unwrap()).collect(),
        _ => return, // ends without any failure: for other checks
    };
    for (phase, &all) in counts.iter().enumerate() {
        let tries = c.sz(2, 14).min(all);
        for t in 0..tries {
            let n = if t < 4 { t } else { c.rng.below(all) };
            let o = run(phase, n);
            c.count("allocations_failed", 1);
            let text = String::from_utf8_lossy(&o.stderr).to_string();
            match o.status.signal() {
                None => {
                    c.count("failures_survived", 1);
                    if !o.status.success() && !text.contains("memory allocation of") && !text.contains("panicked") { fatal(&format!("undefined behaviour? a process in which allocation {n} of phase {phase} failed ended with {:?}: {}", o.status.code(), text)) }
                }
                Some(6) if text.contains("memory allocation of") => c.count("ended_by_handle_alloc_error", 1),
                Some(s) => fatal(&format!("undefined behaviour: {}: after allocation {n} of phase {phase} (seed {seed}) failed, the process was ended by signal {s} and not by handle_alloc_error: {}", WORK[kind].0, text.lines().next().unwrap_or(""))),
            }
            c.state(mix2(mix2(seed, phase as u64), n as u64));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Some(i) = a.iter().position(|x| x == "--starve") {
        let n = |j: usize| a[i + j].parse::<u64>().unwrap();
        return child(n(1) as usize, n(2), n(3) as usize, n(4) as usize);
    }
    hh::run::main(&[("starve", 14, starve)])
}
