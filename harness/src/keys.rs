//! Key universes: structured sets of indices that drive nodes through all fill levels.
use crate::rng::Rng;
use crate::trees::{range_end, undigits};
use std::collections::BTreeSet;

/// Digits worth hitting in a node of `w` children.
fn edge_digit(rng: &mut Rng, w: usize) -> usize {
    let c = [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 127, 128, 191, 192, 193, 254, 255, w - 1, w - 2, w / 2];
    loop { let x = *rng.pick(&c); if x < w { return x; } }
}

/// A universe of at most ~`cap` keys below width^depth.
pub fn universe(rng: &mut Rng, w: usize, d: usize, cap: usize) -> Vec<usize> {
    let end = range_end(w, d);
    let mut set: BTreeSet<usize> = BTreeSet::new();
    let mode = rng.below(10);
    match mode {
        // product of digit sets, one or two levels swept completely
        0..=5 => {
            let mut sets: Vec<Vec<usize>> = (0..d).map(|_| match rng.below(3) {
                0 => vec![edge_digit(rng, w)],
                1 => vec![rng.below(w)],
                _ => { let n = rng.range(2, 4); (0..n).map(|_| if rng.chance(1, 2) { edge_digit(rng, w) } else { rng.below(w) }).collect() }
            }).collect();
            let full = rng.below(d);
            let m = if rng.chance(1, 5) { rng.range(1, w) } else { w };
            sets[full] = (0..m).collect();
            if rng.chance(1, 4) { let f2 = rng.below(d); sets[f2] = (0..w).collect(); }
            for s in sets.iter_mut() { s.sort(); s.dedup(); }
            // restrict until it fits
            let mut total: usize = sets.iter().fold(1usize, |a, s| a.saturating_mul(s.len()));
            let mut i = 0;
            while total > cap * 2 {
                let l = i % d; i += 1;
                if l != full || i > 4 * d {
                    if sets[l].len() > 1 { let keep = sets[l].len().div_ceil(2); rng.shuffle(&mut sets[l]); sets[l].truncate(keep); }
                }
                total = sets.iter().fold(1usize, |a, s| a.saturating_mul(s.len()));
            }
            let mut cur = vec![vec![]];
            for s in &sets {
                let mut nx = Vec::with_capacity(cur.len() * s.len());
                for p in &cur { for &x in s { let mut q: Vec<usize> = p.clone(); q.push(x); nx.push(q); } }
                cur = nx;
            }
            for p in cur { set.insert(undigits(&p, w)); }
        }
        // uniform over the range
        6 => { for _ in 0..cap.min(400) { set.insert(rng.below(end)); } }
        // dense run at a random place, possibly straddling node borders
        7 => {
            let n = cap.min(600).min(end);
            let hi = end - n;
            let start = match rng.below(4) { 0 => 0, 1 => hi, 2 => { let b = (rng.below(hi / w + 1)) * w; b.saturating_sub(n / 2).min(hi) } _ => rng.below(hi + 1) };
            for i in 0..n { set.insert(start + i); }
        }
        // boundaries of every power of the width, both sides
        8 => {
            let mut p = 1usize;
            for _ in 0..=d {
                for m in [1usize, 2, 3, w - 1] {
                    let x = p.saturating_mul(m);
                    for k in [x.wrapping_sub(1), x, x.saturating_add(1)] { if k < end { set.insert(k); } }
                }
                p = p.saturating_mul(w);
            }
            set.insert(end - 1); set.insert(0); set.insert(end / 2); set.insert((end / 2).saturating_sub(1));
        }
        // random walks sharing prefixes
        _ => {
            let mut base: Vec<usize> = (0..d).map(|_| rng.below(w)).collect();
            for _ in 0..cap.min(300) {
                let l = rng.below(d);
                base[l] = if rng.chance(1, 2) { edge_digit(rng, w) } else { rng.below(w) };
                set.insert(undigits(&base, w));
            }
        }
    }
    set.retain(|k| *k < end);
    let mut v: Vec<usize> = set.into_iter().collect();
    if v.len() > cap { rng.shuffle(&mut v); v.truncate(cap); v.sort(); }
    if v.is_empty() { v.push(rng.below(end)); }
    v
}

/// Keys close to `k`: one digit changed.
pub fn near(rng: &mut Rng, k: usize, w: usize, d: usize) -> usize {
    let end = range_end(w, d);
    let b = w.trailing_zeros() as usize;
    let l = rng.below(d);
    let sh = l * b;
    let x = if rng.chance(1, 3) {
        match rng.below(3) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), _ => k ^ (1usize << rng.below(b * d)) }
    } else {
        let nd = if rng.chance(1, 2) { edge_digit(rng, w) } else { rng.below(w) };
        (k & !((w - 1) << sh)) | (nd << sh)
    };
    if x < end { x } else { k }
}

/// A random subset.
pub fn subset(rng: &mut Rng, u: &[usize], num: usize, den: usize) -> Vec<usize> {
    u.iter().copied().filter(|_| rng.chance(num, den)).collect()
}
