//! Oracles: compare any tree, through every access path, with an ordinary map.
use crate::dynt::*;
use crate::keys::near;
use crate::repr::{r, Repr, R};
use crate::rng::Rng;
use crate::run::Case;
use crate::trees::{digits, range_end, undigits};
use crate::{check, viol};
use std::collections::BTreeMap;

pub fn wbit(w: &[u64], i: usize) -> bool { w[i / 64] >> (i % 64) & 1 == 1 }
pub fn wset(w: &mut [u64], i: usize) { w[i / 64] |= 1 << (i % 64) }

pub type Map<M> = BTreeMap<usize, M>;
/// Model of a multi_* tree.
pub type MModel = BTreeMap<usize, Vec<R>>;
/// Model of a regular tree, encoded.
pub type RM = BTreeMap<usize, R>;

fn cmp(what: &str, k: usize, got: Option<&R>, want: Option<&R>) {
    check!(got == want, "{what}({k}): got {got:x?}, expected {want:x?}");
}

pub fn check_get(c: &mut Case, t: &dyn Reg, model: &RM, probes: &[usize]) {
    for &k in probes {
        let want = model.get(&k);
        cmp("get", k, t.get(k).as_ref(), want);
        if want.is_some() { cmp("get_unchecked", k, Some(&unsafe { t.get_u(k) }), want); }
    }
    c.count("lookups", probes.len() as u64);
}

pub fn check_iter(c: &mut Case, t: &dyn Reg, model: &RM) {
    let mut it = t.iter();
    let mut n = 0;
    seq("iteration", &mut || it.next(false), model, &mut n, 3);
    c.count("iterated", n);
}
pub fn check_lend(c: &mut Case, t: &dyn Reg, model: &RM) {
    let mut it = t.iter();
    let mut n = 0;
    seq("lending iteration", &mut || it.next(true), model, &mut n, 2);
    c.count("iterated", n);
}
/// Several iterators over one tree, advanced in turns through both interfaces, some abandoned early.
pub fn check_iter_mix(c: &mut Case, t: &dyn Reg, model: &RM, steps: usize) {
    let items: Vec<(usize, &R)> = model.iter().map(|(k, v)| (*k, v)).collect();
    let want = |i: usize| items.get(i).map(|x| (x.0, x.1.clone()));
    let mut its: Vec<(Box<dyn Both + '_>, usize)> = vec![];
    for _ in 0..steps {
        if its.is_empty() || (its.len() < 4 && c.rng.chance(1, 12)) { its.push((t.iter(), 0)); continue; }
        let i = c.rng.below(its.len());
        match c.rng.below(24) {
            0 => { its.swap_remove(i); }                     // abandon
            1 => {
                let (it, pos) = its.swap_remove(i);
                let rest = it.fold();
                let w: Vec<_> = items[pos.min(items.len())..].iter().map(|x| (x.0, x.1.clone())).collect();
                check!(rest == w, "folding the rest of an iteration at position {pos}: got {rest:x?}, expected {w:x?}");
            }
            2 => {
                let (it, pos) = its.swap_remove(i);
                let n = it.count();
                check!(n == items.len().saturating_sub(pos), "counting the rest of an iteration at position {pos}: {n} of {}", items.len());
            }
            3 => {
                let (it, pos) = its.swap_remove(i);
                let l = it.last();
                let w = if pos < items.len() { want(items.len() - 1) } else { None };
                check!(l == w, "last of an iteration at position {pos}: got {l:x?}, expected {w:x?}");
            }
            4 | 5 => {
                let n = c.rng.below(9);
                let (it, pos) = &mut its[i];
                let g = it.nth(n);
                let w = want(*pos + n);
                check!(g == w, "nth({n}) at position {pos}: got {g:x?}, expected {w:x?}");
                *pos = (*pos + n + 1).min(items.len());
            }
            _ => {
                let burst = c.rng.range(1, 12);
                let lending = c.rng.chance(1, 2);
                let (it, pos) = &mut its[i];
                for _ in 0..burst {
                    let (lo, hi) = it.hint();
                    let rem = items.len() - *pos;
                    check!(lo <= rem && hi.map(|h| h >= rem).unwrap_or(true), "size_hint ({lo},{hi:?}) but {rem} elements remain");
                    let g = it.next(lending);
                    let w = want(*pos);
                    check!(g == w, "interleaved iteration at position {pos} (lending={lending}): got {g:x?}, expected {w:x?}");
                    *pos = (*pos + 1).min(items.len());
                }
                c.count("iterated", burst as u64);
            }
        }
    }
    c.count("interleaved_steps", steps as u64);
}
fn seq(what: &str, next: &mut dyn FnMut() -> Option<(usize, R)>, model: &RM, n: &mut u64, again: usize) {
    let mut want = model.iter();
    loop {
        match (next(), want.next()) {
            (None, None) => break,
            (Some((k, d)), Some((wk, wd))) => {
                check!(k == *wk, "{what}: position {n} has index {k}, expected {wk}");
                cmp(what, k, Some(&d), Some(wd));
            }
            (Some((k, _)), None) => viol!("{what} yields extra index {k} after all {n} elements"),
            (None, Some((wk, _))) => viol!("{what} ends after {n} elements, missing index {wk}"),
        }
        *n += 1;
    }
    for _ in 0..again { check!(next().is_none(), "{what} yields again after its end"); }
}

/// Digits present below a path prefix.
pub fn below<M>(model: &Map<M>, prefix: &[usize], w: usize, d: usize) -> Vec<u64> {
    let mut out = vec![0u64; w / 64];
    let b = w.trailing_zeros() as usize;
    let rem = d - prefix.len();          // levels below, >= 1
    let sh = rem * b;
    let (lo, hi) = if prefix.is_empty() { (0usize, usize::MAX) } else {
        let lo = undigits(prefix, w) << sh;
        (lo, lo + ((1usize << sh) - 1))
    };
    let csh = (rem - 1) * b;
    let mut cur = lo;
    // skip from child to child
    loop {
        match model.range(cur..=hi).next() {
            None => break,
            Some((&k, _)) => {
                let dg = (k >> csh) & (w - 1);
                wset(&mut out, dg);
                if dg == w - 1 { break; }
                let next = ((k >> csh) + 1) << csh;
                if next <= k || next > hi { break; }
                cur = next;
            }
        }
    }
    out
}

pub fn check_mask(exact: bool, got: &[u64], want: &[u64], path: &[usize], terminal: bool) {
    if exact || terminal {
        check!(got == want, "mask at path {path:?}: got {got:x?}, expected {want:x?}");
    } else {
        for i in 0..want.len() {
            check!(got[i] & want[i] == want[i], "mask at path {path:?} hides elements: got {got:x?}, must include {want:x?}");
        }
    }
}

/// Where a cursor stands: digits chosen below the root, and the masks seen (path.len()+1 levels selected).
#[derive(Default)]
pub struct Trav { path: Vec<usize>, masks: Vec<Vec<u64>> }

/// Random cursor traversals with reselection at every level. `at(cursor, digit, key)` judges the data.
fn traverse<C: Cur + ?Sized, M>(c: &mut Case, cur: &mut C, tr: &mut Trav, (w, d, exact): (usize, usize, bool), model: &Map<M>, steps: usize,
    at: &mut dyn FnMut(&mut Case, &C, usize, usize))
{
    let keys: Vec<usize> = if model.len() <= 4096 { model.keys().copied().collect() } else {
        let step = model.len() / 2048; model.keys().copied().step_by(step).collect() };
    let Trav { path, masks } = tr;
    let end = range_end(w, d);
    for _ in 0..steps {
        // new target: an existing key, a near one, or anything
        let x = c.rng.below(8);
        let k = if x < 5 && !keys.is_empty() { *c.rng.pick(&keys) }
            else if x < 7 && !keys.is_empty() { let k = *c.rng.pick(&keys); near(&mut c.rng, k, w, d) }
            else { c.rng.below(end) };
        let mut dg = digits(k, w, d);
        // stay near the present position: change only what is below some level
        if path.len() == d - 1 && d > 1 && c.rng.chance(1, 2) {
            let l = c.rng.below(d);
            dg[..l].copy_from_slice(&path[..l]);
            if undigits(&dg, w) >= end { dg = digits(k, w, d); }
        }
        // keep a random common prefix of selections
        let common = (0..masks.len().min(d)).take_while(|&i| i == 0 || (path.len() >= i && path[i - 1] == dg[i - 1])).count();
        let from = if common == 0 { 0 } else if c.rng.chance(1, 6) { c.rng.below(common) } else { common };
        masks.truncate(from);
        path.truncate(from.saturating_sub(1));
        let stop_at = if c.rng.chance(1, 8) { c.rng.below(d) } else { d - 1 };
        while masks.len() <= stop_at {
            let l = masks.len();
            let idx = if l == 0 { 0 } else { dg[l - 1] };
            let exists = l == 0 || wbit(&masks[l - 1], idx);
            let unchecked = exists && c.rng.chance(1, 2);
            let m = unsafe { cur.select(l, idx, unchecked) };
            if l > 0 { path.push(idx); }
            let want = below(model, path, w, d);
            c.log(|| format!("select level {l} child {idx} unchecked={unchecked} -> {m:x?}"));
            if !exists {
                check!(m.iter().all(|x| *x == 0), "cursor: selecting missing child {path:?} gave mask {m:x?}");
            } else {
                check_mask(exact, &m, &want, path, l == d - 1);
            }
            for x in &m { c.record(*x) }
            masks.push(m);
            c.count("selections", 1);
        }
        if masks.len() == d {
            let base = if d == 1 { 0 } else { undigits(path, w) << w.trailing_zeros() };
            for j in 0..6 {
                let i = if j == 0 { dg[d - 1] } else if j < 3 { c.rng.below(w) } else {
                    match model.range(base..).nth(c.rng.below(3)) { Some((k, _)) if *k - base < w => *k - base, _ => c.rng.below(w) } };
                let key = base + i;
                if key >= end { continue; }
                at(c, cur, i, key);
                c.count("cursor_reads", 1);
            }
        }
    }
}

fn reg_at<C: RegCur + ?Sized>(model: &RM, cur: &C, i: usize, key: usize) {
    let want = model.get(&key);
    cmp("cursor data", key, unsafe { cur.data(i) }.as_ref(), want);
    if want.is_some() { cmp("cursor data_unchecked", key, Some(&unsafe { cur.data_u(i) }), want); }
}
pub fn check_cursor(c: &mut Case, t: &dyn Reg, model: &RM, steps: usize) {
    let mut cur = t.cursor();
    traverse(c, &mut *cur, &mut Trav::default(), (t.w(), t.d(), t.exact()), model, steps, &mut |_, cur, i, key| reg_at(model, cur, i, key));
}
/// Several cursors on one tree, used in turns, with iterations in between.
pub fn check_cursors(c: &mut Case, t: &dyn Reg, model: &RM, rounds: usize) {
    let mut curs: Vec<_> = (0..3).map(|_| (t.cursor(), Trav::default())).collect();
    for _ in 0..rounds {
        let i = c.rng.below(curs.len());
        let n = c.rng.range(1, 5);
        let (cur, tr) = &mut curs[i];
        traverse(c, &mut **cur, tr, (t.w(), t.d(), t.exact()), model, n, &mut |_, cur, i, key| reg_at(model, cur, i, key));
        match c.rng.below(10) {
            0 => { let mut it = t.iter(); for _ in 0..5 { it.next(false); } }
            1 => { let k = c.rng.below(range_end(t.w(), t.d())); cmp("get", k, t.get(k).as_ref(), model.get(&k)); }
            2 => { curs[i] = (t.cursor(), Trav::default()); }
            _ => {}
        }
    }
}

fn walk_rec<M>(c: &mut Case, cur: &mut dyn FnMut(usize, usize) -> Vec<u64>, exact: bool, model: &Map<M>,
    path: &mut Vec<usize>, idx: usize, found: &mut usize, w: usize, d: usize)
{
    let l = path.len();
    let m = cur(l, idx);
    let want = below(model, path, w, d);
    check_mask(exact, &m, &want, path, l == d - 1);
    if exact && l > 0 {
        check!(m.iter().any(|x| *x != 0), "exact hierarchy has an empty node at {path:?}");
    }
    c.count("nodes_walked", 1);
    for x in &m { c.record(*x) }
    for i in 0..w {
        if wbit(&m, i) {
            if l == d - 1 { *found += 1; }
            else { path.push(i); walk_rec(c, cur, exact, model, path, i, found, w, d); path.pop(); }
        }
    }
}
/// Complete walk over the masks: nothing hidden, and nothing false if the hierarchy claims to be exact.
pub fn walk<M>(c: &mut Case, cur: &mut dyn FnMut(usize, usize) -> Vec<u64>, sh: (usize, usize, bool), model: &Map<M>) {
    let mut found = 0;
    walk_rec(c, cur, sh.2, model, &mut vec![], 0, &mut found, sh.0, sh.1);
    check!(found == model.len(), "walk over masks reaches {found} elements, tree contains {}", model.len());
}
pub fn check_walk(c: &mut Case, t: &dyn Reg, model: &RM, unchecked: bool) {
    let mut cur = t.cursor();
    walk(c, &mut |l, i| unsafe { cur.select(l, i, unchecked) }, (t.w(), t.d(), t.exact()), model);
}

pub fn check_kv<V>(c: &mut Case, keys: &[usize], vals: &[V], model: &RM) where for<'a> &'a V: Repr {
    check!(keys.len() == vals.len(), "key_values: {} keys but {} values", keys.len(), vals.len());
    check!(keys.len() == model.len(), "key_values: {} elements, expected {}", keys.len(), model.len());
    let mut seen = std::collections::HashSet::with_capacity(keys.len());
    for (k, v) in keys.iter().zip(vals) {
        check!(seen.insert(*k), "key_values: index {k} appears twice");
        let want = model.get(k);
        check!(want.is_some(), "key_values: index {k} is not in the tree");
        cmp("key_values", *k, Some(&r(&v)), want);
    }
    for k in keys { c.record(*k as u64) }
    c.count("kv_pairs", keys.len() as u64);
}

/// Probe indices around a model: members, near misses, random.
pub fn probes<M>(rng: &mut Rng, model: &Map<M>, universe: &[usize], w: usize, d: usize, n: usize) -> Vec<usize> {
    let end = range_end(w, d);
    let mut v = Vec::with_capacity(n + 4);
    for i in 0..n {
        let k = match i % 8 {
            0..=3 => *rng.pick(universe),
            4..=5 => { let k = *rng.pick(universe); near(rng, k, w, d) }
            6 => match model.range(rng.below(end)..).next() { Some((k, _)) => *k, None => rng.below(end) },
            _ => rng.below(end),
        };
        v.push(k);
    }
    v.extend([0, end - 1, w - 1, (w * 2 - 1).min(end - 1)]);
    v
}

/// Everything for a regular tree.
pub fn check_all(c: &mut Case, t: &dyn Reg, model: &RM, probes: &[usize], cursor_steps: usize) {
    check_get(c, t, model, probes);
    check_iter(c, t, model);
    check_lend(c, t, model);
    check_cursor(c, t, model, cursor_steps);
    check_walk(c, t, model, true);
}

pub fn shape_hash<M>(model: &Map<M>, salt: u64) -> u64 {
    let mut h = crate::rng::mix(salt ^ model.len() as u64);
    for k in model.keys() { h = crate::rng::mix2(h, *k as u64); }
    h
}

// ---- multi trees: the data are iterators ----

/// How one value sequence is read: mostly by steps and folds.
fn way(c: &mut Case) -> usize { if c.rng.chance(1, 4) { c.rng.range(FOLDS, WAYS - 1) } else { c.rng.below(FOLDS) } }

fn judge(what: &str, k: usize, exact_len: bool, seen: &Seen, want: &[R]) {
    match seen {
        Seen::Steps(d) => {
            check!(!d.overrun, "{what}({k}): yields more than {CAP} values, expected {}", want.len());
            check!(d.vals == want, "{what}({k}): got values {:x?}, expected {want:x?}", d.vals);
            check!(!d.again, "{what}({k}): yields again after its end");
            for (i, (lo, hi)) in d.hints.iter().enumerate() {
                let remaining = want.len().saturating_sub(i);
                check!(*lo <= remaining && hi.map(|h| h >= remaining).unwrap_or(true),
                    "{what}({k}): size_hint ({lo},{hi:?}) but {remaining} values remain");
                if exact_len { check!(*lo == remaining && *hi == Some(remaining), "{what}({k}): reported length ({lo},{hi:?}) is not the exact {remaining}"); }
            }
        }
        Seen::Folded(v) => check!(v == want, "{what}({k}) folded: got values {v:x?}, expected {want:x?}"),
        Seen::Each(v) => check!(v == want, "{what}({k}).for_each: got values {v:x?}, expected {want:x?}"),
        Seen::Last(h, l) => check!(want.starts_with(h) && *l == if h.len() < want.len() { want.last().cloned() } else { None },
            "{what}({k}).last after {h:x?}: got {l:x?}, the values are {want:x?}"),
        Seen::Count(h, n) => check!(want.starts_with(h) && h.len() + n == want.len(), "{what}({k}).count after {h:x?}: got {n}, the values are {want:x?}"),
        Seen::Nth(h, n, g, t) => {
            let i = h.len() + n;
            check!(want.starts_with(h) && *g == want.get(i).cloned() && *t == want[(i + 1).min(if g.is_some() { want.len() } else { 0 })..if g.is_some() { want.len() } else { 0 }],
                "{what}({k}).nth({n}) after {h:x?}: got {g:x?}, then {t:x?}; the values are {want:x?}");
        }
    }
}

pub fn check_multi(c: &mut Case, t: &dyn Multi, model: &MModel, probes: &[usize], steps: usize, exact_len: bool) {
    let (w, d) = (t.w(), t.d());
    for &k in probes {
        let want = model.get(&k);
        let how = way(c);
        match (t.get(k, how), want) {
            (None, None) => {}
            (Some(s), None) => viol!("get({k}): present with {s:x?}, expected absent"),
            (None, Some(w)) => viol!("get({k}): absent, expected {w:x?}"),
            (Some(s), Some(wv)) => {
                judge("get", k, exact_len, &s, wv);
                if how != 0 { judge("get", k, exact_len, &t.get(k, 0).unwrap(), wv); }
                let how = way(c);
                judge("get_unchecked", k, exact_len, &unsafe { t.get_u(k, how) }, wv);
                judge("get_unchecked", k, exact_len, &unsafe { t.get_u(k, 0) }, wv);
            }
        }
    }
    c.count("lookups", probes.len() as u64);
    for pass in [0, 1, 2, way(c)] {
        let mut it = t.lend();
        let mut want = model.iter();
        let mut n = 0;
        loop {
            match (it.next(pass), want.next()) {
                (None, None) => break,
                (Some((k, s)), Some((wk, wv))) => {
                    check!(k == *wk, "iteration: position {n} has index {k}, expected {wk}");
                    judge("iteration", k, exact_len, &s, wv);
                }
                (Some((k, _)), None) => viol!("iteration yields extra index {k} after all {n} elements"),
                (None, Some((wk, _))) => viol!("iteration ends after {n} elements, missing index {wk}"),
            }
            n += 1;
        }
        for _ in 0..2 { check!(it.next(0).is_none(), "iteration yields again after its end"); }
        c.count("iterated", n);
    }
    let mut cur = t.cursor();
    traverse(c, &mut *cur, &mut Trav::default(), (w, d, t.exact()), model, steps, &mut |c, cur, i, key| {
        let how = way(c);
        match (unsafe { cur.data(i, how) }, model.get(&key)) {
            (None, None) => {}
            (Some(s), None) => viol!("cursor data({key}): present with {s:x?}, expected absent"),
            (None, Some(w)) => viol!("cursor data({key}): absent, expected {w:x?}"),
            (Some(s), Some(wv)) => {
                judge("cursor data", key, exact_len, &s, wv);
                judge("cursor data_unchecked", key, exact_len, &unsafe { cur.data_u(i, how) }, wv);
                judge("cursor data_unchecked", key, exact_len, &unsafe { cur.data_u(i, 0) }, wv);
            }
        }
    });
    for unchecked in [false, true] {
        let mut cur = t.cursor();
        walk(c, &mut |l, i| unsafe { cur.select(l, i, unchecked) }, (w, d, t.exact()), model);
    }
}


/// All masks of a tree, path by path, following every set bit (also those over empty sub-trees).
pub fn dump_masks(t: &dyn Reg, limit: usize) -> Vec<(Vec<usize>, Vec<u64>)> {
    fn rec(cur: &mut dyn RegCur, d: usize, path: &mut Vec<usize>, idx: usize, out: &mut Vec<(Vec<usize>, Vec<u64>)>, limit: usize) {
        let l = path.len();
        let m = unsafe { cur.select(l, idx, false) };
        out.push((path.clone(), m.clone()));
        if l == d - 1 || out.len() > limit { return; }
        for i in 0..m.len() * 64 { if wbit(&m, i) { path.push(i); rec(cur, d, path, i, out, limit); path.pop(); } }
    }
    let mut out = vec![];
    rec(&mut *t.cursor(), t.d(), &mut vec![], 0, &mut out, limit);
    out
}
/// Iteration, through every interface, twice.
pub fn check_iteration(c: &mut Case, t: &dyn Reg, model: &RM) {
    check_iter(c, t, model);
    check_iter_mix(c, t, model, 60);
    check_lend(c, t, model);
    // the values are those get returns
    let mut it = t.iter();
    let mut n = 0;
    while let Some((k, v)) = it.next(n % 2 == 0) {
        if n % 7 == 0 || n < 20 { cmp("get of an iterated index", k, t.get(k).as_ref(), Some(&v)); }
        n += 1;
        if n > 4000 { break; }
    }
    c.state_if(!model.is_empty(), shape_hash(model, (t.w() * 16 + t.d()) as u64));
}
