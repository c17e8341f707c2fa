//! Scenario bodies on one container, per theme.
use crate::alloc;
use crate::checks::*;
use crate::cont::Cont;
use crate::dynt::Reg;
use crate::hist::*;
use crate::keys;
use crate::run::{Case, Injected};
use crate::trees::{digits, range_end};
use crate::vals::*;
use crate::{check, viol};
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn cap(c: &mut Case) -> usize { match c.rng.below(5) { 0 => 3, 1 => 30, 2 => c.sz(40, 120), _ => c.sz(60, 400) } }
/// One random phase of a history.
pub fn phase<V: Val>(c: &mut Case, h: &mut Hist<V>) {
    match c.rng.below(9) {
        0 | 1 => h.fill(c),
        2 => h.drain(c),
        3 => h.half(c),
        x => {
            let ph = [Phase::Grow, Phase::Grow, Phase::Shrink, Phase::Churn, Phase::Churn][x - 4];
            let n = c.rng.range(5, h.universe.len() + 20);
            for _ in 0..n { h.step(c, ph); }
        }
    }
}

// ---- iteration ----
pub fn iteration<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let n = cap(c);
    let mut h = Hist::new(c, t, n);
    check_iteration(c, h.t.reg(), &h.rm());
    for _ in 0..c.sz(2, 4) {
        phase(c, &mut h);
        let rm = h.rm();
        check_iteration(c, h.t.reg(), &rm);
    }
}
pub fn iteration_long<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let end = range_end(t.w(), t.d());
    let n = c.sz(200, 30_000).min(end);
    let stride = (end / n).max(1);
    let mul = if c.rng.chance(1, 2) { 1 } else { stride };
    let mut u: Vec<usize> = (0..n).map(|i| i * mul + if c.rng.chance(1, 3) && mul > 1 { c.rng.below(mul.min(5000)) } else { 0 }).filter(|k| *k < end).collect();
    u.sort(); u.dedup();
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut u) }
    let mut h = Hist::with(c, t, u);
    h.fill(c);
    check_iteration(c, h.t.reg(), &h.rm());
    h.half(c);
    check_iteration(c, h.t.reg(), &h.rm());
    c.count("long_iterations", 1);
}

// ---- key_values ----
pub fn kv_check<V: Val>(c: &mut Case, h: &mut Hist<V>) {
    {
        let (keys, vals) = h.t.kv();
        check!(keys.len() == vals.len(), "key_values: {} keys but {} values", keys.len(), vals.len());
        check!(keys.len() == h.model.len(), "key_values: {} elements, {} stored", keys.len(), h.model.len());
        let mut seen = BTreeSet::new();
        for (i, (k, v)) in keys.iter().zip(vals).enumerate() {
            check!(seen.insert(*k), "key_values: index {k} appears twice");
            let want = h.model.get(k);
            check!(want.is_some(), "key_values: index {k} at position {i} is not stored");
            let got = v.view();
            check!(Some(&got) == want, "key_values: index {k} at position {i} has value {got:x}, expected {want:x?}");
        }
        c.count("kv_pairs", keys.len() as u64);
    }
    let keys: Vec<usize> = h.t.kv().0.to_vec();
    let mk = h.t.kv_mut();
    check!(mk.0.len() == mk.1.len(), "key_values_mut: {} keys but {} values", mk.0.len(), mk.1.len());
    check!(mk.0 == keys, "key_values_mut and key_values differ in their indices");
    for (k, v) in mk.0.iter().zip(mk.1.iter()) {
        check!(h.model.get(k) == Some(&v.view()), "key_values_mut: index {k} has value {:x}, expected {:x?}", v.view(), h.model.get(k));
    }
}
fn kv_write<V: Val>(c: &mut Case, h: &mut Hist<V>) {
    let n = h.model.len();
    if n == 0 { return; }
    let m = if c.rng.chance(1, 3) { n } else { c.rng.range(1, 4.min(n)) };
    let mut touched = vec![];
    for j in 0..m {
        let i = if m == n { j } else { c.rng.below(n) };
        h.next_id += 1;
        let id = h.next_id;
        let (keys, vals) = h.t.kv_mut();
        let k = keys[i];
        if c.rng.chance(1, 5) {
            let j = c.rng.below(n);
            vals.swap(i, j);
            let kj = keys[j];
            c.log(|| format!("key_values_mut: swap {k} {kj}"));
            let (a, b) = (h.model[&k], h.model[&kj]);
            h.model.insert(k, b); h.model.insert(kj, a);
            touched.push(kj);
        } else {
            vals[i].set(id);
            c.log(|| format!("key_values_mut[{i}] (index {k}) = #{id}"));
            h.model.insert(k, V::canon(id));
        }
        touched.push(k);
        c.count("kv_writes", 1);
    }
    for k in touched.iter().take(40) {
        h.get(c, *k);
        h.get_mut(c, *k);
        h.goi(c, *k);
    }
    let rm = h.rm();
    check_iter(c, h.t.reg(), &rm);
    for k in touched { if c.rng.chance(1, 6) { h.remove(c, k); } }
}
pub fn key_values<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let n = cap(c).min(160);
    let mut h = Hist::new(c, t, n);
    kv_check(c, &mut h);
    for _ in 0..c.sz(2, 4) {
        let ph = *c.rng.pick(&[Phase::Grow, Phase::Grow, Phase::Churn, Phase::Shrink]);
        let steps = c.rng.range(5, 60);
        for _ in 0..steps { h.step(c, ph); kv_check(c, &mut h); }
        phase(c, &mut h);
        kv_check(c, &mut h);
        kv_write(c, &mut h);
        kv_check(c, &mut h);
        c.state_if(!h.model.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
    }
    h.drain(c);
    kv_check(c, &mut h);
}
pub fn key_values_long<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let end = range_end(t.w(), t.d());
    let n = c.sz(100, 5000).min(end);
    let mut u: BTreeSet<usize> = BTreeSet::new();
    while u.len() < n { let k = if end / 2 < n { u.len() } else { c.rng.below(end) }; u.insert(k); }
    let mut h = Hist::with(c, t, u.into_iter().collect());
    for _ in 0..2 {
        h.fill(c); kv_check(c, &mut h);
        h.half(c); kv_check(c, &mut h);
        kv_write(c, &mut h); kv_check(c, &mut h);
        for _ in 0..n { h.step(c, Phase::Churn); }
        kv_check(c, &mut h);
        c.state_if(true, shape_hash(&h.model, 4));
    }
}

// ---- range ----
/// Numbers that are not indices of a tree of this range, among them those that would alias a stored index.
pub fn outside(c: &mut Case, end: usize, w: usize, live: &[usize], n: usize) -> Vec<usize> {
    if end == usize::MAX { return vec![usize::MAX]; }
    let mut v = vec![end, end + 1, end.saturating_mul(2), end.saturating_mul(2).saturating_sub(1), end.saturating_mul(w),
        usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 63, (u32::MAX as usize + 1).max(end), end.saturating_add(w)];
    for _ in 0..n {
        let k = if live.is_empty() { c.rng.below(end) } else { *c.rng.pick(live) };
        // same low digits as an existing index, and one bit too many
        let bit = end.trailing_zeros() as usize + c.rng.below(64 - end.trailing_zeros() as usize);
        v.push(k | 1 << bit);
        v.push(k.saturating_add(end));
        v.push(end.saturating_add(c.rng.below(end.min(usize::MAX - end) + 1)));
    }
    v.sort(); v.dedup();
    v.retain(|k| *k >= end);
    v
}
pub fn must_panic(what: &str, k: usize, f: impl FnOnce()) {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(()) => viol!("{what}({k}) accepted an index outside the range"),
        Err(p) => if p.is::<crate::run::Violation>() { std::panic::resume_unwind(p) }
    }
}
pub fn range<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let n = cap(c).min(100);
    let mut h = Hist::new(c, t, n);
    let end = range_end(h.w, h.d);
    check!(h.t.range() == end, "index_range ends at {}, expected {end}", h.t.range());
    for round in 0..c.sz(1, 3) {
        if round > 0 { phase(c, &mut h); }
        // everything below the end is accepted
        for k in [end - 1, end - 2, 0, end / 2, end - h.w] {
            match c.rng.below(4) {
                0 => h.insert(c, k), 1 => h.goi(c, k), 2 => { h.remove(c, k); } _ => h.get_mut(c, k)
            }
            h.get(c, k);
            let g = h.t.get_ix(k);
            check!(g.as_ref().map(|r| r.0[0]) == h.model.get(&k).copied(), "get(Index::from({k})) = {g:x?}, expected {:x?}", h.model.get(&k));
            if h.t.req_default() { let _ = h.t.get_or_default(k); }
            c.count("edge_indices", 1);
        }
        let live: Vec<usize> = h.model.keys().copied().collect();
        let before: Vec<(usize, u64)> = { let (k, v) = h.t.kv(); k.iter().copied().zip(v.iter().map(|v| v.view())).collect() };
        let bad = outside(c, end, h.w, &live, c.sz(1, 6));
        let born = ledger(|l| l.defaults);
        for &k in &bad {
            c.log(|| format!("operations at {k}, outside of 0..{end}"));
            h.next_id += 1;
            let id = h.next_id;
            must_panic("insert", k, || h.t.insert(k, V::make(id)));
            must_panic("get_or_insert", k, || { h.t.goi(k); });
            must_panic("remove", k, || { h.t.remove(k); });
            must_panic("get", k, || { h.t.get_ref(k); });
            must_panic("Index::from", k, || { h.t.get_ix(k); });
            if !h.t.is_dense() { must_panic("get_mut", k, || { h.t.get_mut(k); }); }
            if h.t.req_default() { must_panic("get_or_default", k, || { h.t.get_or_default(k); }); }
            c.count("rejected", 5);
        }
        check!(ledger(|l| l.defaults) == born, "a rejected call made a default value");
        let after: Vec<(usize, u64)> = { let (k, v) = h.t.kv(); k.iter().copied().zip(v.iter().map(|v| v.view())).collect() };
        check!(before == after, "rejected calls changed the contents");
        let rm = h.rm();
        check_walk(c, h.t.reg(), &rm, false);
        crate::histcases::verify_all(c, &mut h);
        for _ in 0..30 { h.step(c, Phase::Churn); }
        kv_check(c, &mut h);
        crate::histcases::verify(c, &mut h, 20);
        c.state_if(!h.model.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
    }
}

// ---- cursor ----
pub fn cursor<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let n = cap(c);
    let mut h = Hist::new(c, t, n);
    for i in 0..c.sz(2, 3) {
        if i > 0 || c.rng.chance(9, 10) { phase(c, &mut h); }
        let rm = h.rm();
        check_cursor(c, h.t.reg(), &rm, c.sz(10, 60));
        check_cursors(c, h.t.reg(), &rm, c.sz(6, 40));
        c.state_if(!rm.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
    }
}

// ---- masks ----
pub fn masks<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>, fresh: Box<dyn Cont<V>>) {
    let n = cap(c);
    let mut h = Hist::new(c, t, n);
    for _ in 0..c.sz(2, 4) {
        phase(c, &mut h);
        let rm = h.rm();
        check_walk(c, h.t.reg(), &rm, false);
        check_walk(c, h.t.reg(), &rm, true);
        // every operation, one by one
        for _ in 0..c.sz(4, 12) {
            h.step(c, Phase::Churn);
            let rm = h.rm();
            if rm.len() < 200 || c.rng.chance(1, 4) { check_walk(c, h.t.reg(), &rm, true); }
        }
        c.state_if(!rm.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
    }
    // history independence
    let mut f = fresh;
    let mut ks: Vec<usize> = h.model.keys().copied().collect();
    c.rng.shuffle(&mut ks);
    for k in &ks { f.insert(*k, V::make(1)); }
    let (a, b) = (dump_masks(h.t.reg(), 20_000), dump_masks(f.reg(), 20_000));
    check!(a == b, "masks of two trees with the same {} indices differ: {:x?} and {:x?}", ks.len(),
        a.iter().find(|x| !b.contains(x)), b.iter().find(|x| !a.contains(x)));
    c.count("dumps_compared", 1);
}

// ---- ownership ----
pub fn ledger_check(what: &str, h: &Hist<Tracked>, held: &[Tracked], req: bool) {
    let mut want: Vec<u64> = h.model.values().copied().filter(|v| *v != 0).collect();
    want.extend(held.iter().map(|v| v.id()).filter(|v| v & DEFAULT_BIT == 0));
    want.sort();
    let live = live_ids();
    let ids: Vec<u64> = live.iter().copied().filter(|v| v & DEFAULT_BIT == 0).collect();
    if let Some(f) = faults().first() { viol!("{what}: {f}") }
    if ids != want {
        let lost: Vec<&u64> = want.iter().filter(|x| !ids.contains(x)).take(4).collect();
        let extra: Vec<&u64> = ids.iter().filter(|x| !want.contains(x)).take(4).collect();
        viol!("{what}: values dropped early {lost:x?}, values never dropped {extra:x?}");
    }
    let nd = live.len() - ids.len();
    let wd = h.model.values().filter(|v| **v == 0).count() + held.iter().filter(|v| v.id() & DEFAULT_BIT != 0).count() + req as usize;
    check!(nd == wd, "{what}: {nd} default values alive, expected {wd}");
}
/// The same as ledger_check after every operation, but without walking over everything.
fn ledger_quick(what: &str, h: &Hist<Tracked>, held: usize, req: bool) {
    let (alive, fault) = ledger(|l| (l.born - l.dead, l.faults.first().cloned()));
    if let Some(f) = fault { viol!("{what}: {f}") }
    let want = (h.model.len() + held + req as usize) as u64;
    check!(alive == want, "{what}: {alive} values alive, expected {want}");
}
pub fn ownership(c: &mut Case, make: &dyn Fn() -> Box<dyn Cont<Tracked>>) {
    reset_ledger();
    let t = make();
    let req = t.req_default();
    let n = cap(c).min(200);
    let mut h = Hist::new(c, t, n);
    let mut held: Vec<Tracked> = vec![];
    let mut defaults = req as u64;
    ledger_check("construction", &h, &held, req);
    for _ in 0..c.sz(2, 4) {
        let ph = *c.rng.pick(&[Phase::Grow, Phase::Grow, Phase::Churn, Phase::Churn, Phase::Shrink, Phase::Drain]);
        let steps = c.rng.range(5, c.sz(30, 150));
        for s in 0..steps {
            let what;
            match (ph, c.rng.below(100)) {
                (Phase::Grow, 0..60) | (Phase::Churn, 0..35) | (Phase::Shrink, 0..10) => {
                    let k = h.key(c);
                    if c.rng.chance(1, 3) {
                        if !h.model.contains_key(&k) { defaults += 1; }
                        h.goi(c, k); what = format!("get_or_insert({k})")
                    } else { h.insert(c, k); what = format!("insert({k})") }
                }
                (Phase::Shrink | Phase::Drain, _) | (Phase::Churn, 35..75) | (Phase::Grow, 60..70) => {
                    let k = if c.rng.chance(4, 5) { h.live_key(c).unwrap_or(0) } else { h.key(c) };
                    if let Some(v) = h.remove(c, k) {
                        if c.rng.chance(1, 2) { held.push(v) } else {
                            let id = v.id();
                            check!(live_ids().contains(&id), "remove({k}) returned a value that was dropped");
                            drop(v);
                        }
                    }
                    what = format!("remove({k})")
                }
                (_, 75..85) => {
                    if !h.model.is_empty() {
                        h.next_id += 1; let id = h.next_id;
                        let (keys, vals) = h.t.kv_mut();
                        let i = c.rng.below(keys.len());
                        let k = keys[i];
                        vals[i].set(id);
                        h.model.insert(k, id);
                    }
                    what = "write through key_values_mut".to_string()
                }
                (_, 85..90) => { if !held.is_empty() { let i = c.rng.below(held.len()); held.swap_remove(i); } what = "dropping a removed value".to_string() }
                _ => { let k = h.key(c); if c.rng.chance(1, 2) { h.get_mut(c, k) } else { h.get(c, k) } what = format!("reading {k}") }
            }
            ledger_quick(&what, &h, held.len(), req);
            if s % 8 == 0 || h.model.len() < 12 { ledger_check(&what, &h, &held, req); }
            c.count("ledger_checks", 1);
        }
        ledger_check("phase", &h, &held, req);
        check!(ledger(|l| l.defaults) == defaults, "{} default values were made, expected {defaults}", ledger(|l| l.defaults));
        // reading makes and drops nothing
        let rm = h.rm();
        check_iter(c, h.t.reg(), &rm);
        check_cursor(c, h.t.reg(), &rm, 5);
        if req { for _ in 0..5 { let k = h.key(c); let _ = h.t.get_or_default(k); } }
        ledger_check("reading", &h, &held, req);
        check!(ledger(|l| l.defaults) == defaults, "reading made default values");
        c.state_if(!h.model.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
        if c.rng.chance(1, 4) {
            // drop the container in the middle of the story, start again
            let universe = std::mem::take(&mut h.universe);
            let id = h.next_id;
            drop(h);
            let live = live_ids();
            let hl: BTreeSet<u64> = held.iter().map(|v| v.id()).collect();
            if let Some(f) = faults().first() { viol!("dropping the container: {f}") }
            check!(live.iter().copied().collect::<BTreeSet<_>>() == hl, "after dropping the container {} values are alive, {} are held outside of it", live.len(), hl.len());
            h = Hist::with(c, make(), universe);
            h.next_id = id;
            defaults += req as u64;
        }
    }
    drop(h);
    if let Some(f) = faults().first() { viol!("dropping the container: {f}") }
    check!(live_ids().len() == held.len(), "after dropping the container {} values are alive, {} are held outside of it", live_ids().len(), held.len());
    drop(held);
    if let Some(f) = faults().first() { viol!("dropping removed values: {f}") }
    check!(live_ids().is_empty(), "values never dropped: {:x?}", live_ids());
    c.count("values_born", ledger(|l| l.born));
}
/// Zero-sized values: only their numbers can be watched.
pub fn ownership_zst(c: &mut Case, t: Box<dyn Fn() -> Box<dyn Cont<ZTracked>>>) {
    z_reset();
    let t = t();
    let req = t.req_default();
    let mut h = Hist::new(c, t, 60);
    let mut defaults = req as u64;
    for _ in 0..c.sz(60, 250) {
        let k = h.key(c);
        match c.rng.below(5) {
            0 | 1 => h.insert(c, k),
            2 => { if !h.model.contains_key(&k) { defaults += 1; } h.goi(c, k) }
            _ => { let k = h.live_key(c).unwrap_or(k); h.remove(c, k); }
        }
        let (b, d, df) = z_counts();
        let want = (h.model.len() + req as usize) as u64;
        check!(b - d == want, "{} zero-sized values alive, expected {want}", b as i64 - d as i64);
        check!(df == defaults, "{df} default values were made, expected {defaults}");
    }
    c.state_if(!h.model.is_empty(), shape_hash(&h.model, 7));
    drop(h);
    let (b, d, _) = z_counts();
    check!(b == d, "{b} zero-sized values made, {d} dropped");
}

// ---- panics in user code ----
fn injected(what: &str, r: Result<(), Box<dyn std::any::Any + Send>>) -> bool {
    match r {
        Ok(()) => false,
        Err(p) => {
            if !p.is::<Injected>() { std::panic::resume_unwind(p) }
            let _ = what;
            true
        }
    }
}
/// A panic at the n-th call of user code inside every kind of operation, for every n.
pub fn panics(c: &mut Case, make: &dyn Fn() -> Box<dyn Cont<Tracked>>) {
    reset_ledger();
    // construction
    let req = make().req_default();
    for n in 1..4 {
        reset_ledger();
        set_fuse(n);
        let fired = injected("construction", catch_unwind(AssertUnwindSafe(|| { drop(make()); })));
        check!(clear_fuse() == fired, "the panic in construction did not reach the caller");
        if let Some(f) = faults().first() { viol!("panic in construction: {f}") }
        if fired { c.count("panics_injected", 1); }
        check!(fired || n > 0, "");
    }
    reset_ledger();
    let t = make();
    let n = cap(c).min(120);
    let mut h = Hist::new(c, t, n);
    let rounds = c.sz(5, 30);
    for _ in 0..rounds {
        let steps = c.rng.below(12);
        for _ in 0..steps { h.step(c, *c.rng.clone().pick(&[Phase::Grow, Phase::Churn, Phase::Churn, Phase::Shrink])); }
        let k = match c.rng.below(3) { 0 => h.live_key(c).unwrap_or(0), _ => h.key(c) };
        let old = h.model.get(&k).copied();
        h.next_id += 1;
        let id = h.next_id;
        let kind = c.rng.below(4);
        let what = ["insert", "get_or_insert", "write through get_or_insert", "write through key_values_mut"][kind];
        c.log(|| format!("panic in {what}({k}), present={}", old.is_some()));
        let newv = Tracked::make(id);
        set_fuse(1);
        let mut newv = Some(newv);
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            0 => h.t.insert(k, newv.take().unwrap()),
            1 => { h.t.goi(k); }
            2 => { let s = h.t.goi(k); *s = newv.take().unwrap(); }
            _ => { let (keys, vals) = h.t.kv_mut(); if let Some(i) = keys.iter().position(|x| *x == k) { vals[i] = newv.take().unwrap(); } }
        }));
        let fired = injected(what, r);
        let f2 = clear_fuse();
        check!(f2 == fired, "{what}({k}): the panic did not reach the caller");
        drop(newv);
        if let Some(f) = faults().first() { viol!("after a panic in {what}({k}): {f}") }
        if fired { c.count("panics_injected", 1); c.count(["panic_insert", "panic_get_or_insert", "panic_write", "panic_kv_write"][kind], 1); }
        // what is at the index now?
        let now = h.t.get_ref(k).map(|v| v.view());
        if let Some(f) = faults().first() { viol!("after a panic in {what}({k}): {f}") }
        let ok = match now {
            None => old.is_none() || fired,
            Some(v) => v == id || Some(v) == old || (v == 0 && kind != 0),
        };
        check!(ok, "after a panic in {what}({k}) the index holds {now:x?} (before: {old:x?}, new: {id:x})");
        match now { Some(v) => { h.model.insert(k, v); } None => { h.model.remove(&k); } }
        // everything else as before
        kv_check(c, &mut h);
        crate::histcases::verify(c, &mut h, 12);
        let rm = h.rm();
        check_iter(c, h.t.reg(), &rm);
        check_walk(c, h.t.reg(), &rm, false);
        if let Some(f) = faults().first() { viol!("after a panic in {what}({k}): {f}") }
        c.state_if(fired, shape_hash(&h.model, kind as u64));
    }
    crate::histcases::verify_all(c, &mut h);
    if c.rng.chance(1, 4) { h.drain(c); }
    // dropping the container, a panic at the n-th value
    let total = h.model.len() + req as usize;
    let n = if total == 0 { 1 } else { 1 + c.rng.below(total.min(60)) } as u64;
    let keep = c.rng.chance(1, 3);
    let Hist { t, model, .. } = h;
    if keep && !model.is_empty() {
        // a removed value panics in the caller's hands: nothing of the container's business
        let mut t = t;
        let k = *model.keys().next().unwrap();
        let v = t.remove(k);
        set_fuse(1);
        let fired = injected("drop of a removed value", catch_unwind(AssertUnwindSafe(|| drop(v))));
        clear_fuse();
        check!(fired, "harness: no panic from a removed value");
        check!(t.get_ref(k).is_none(), "removed index {k} is back after its value panicked");
        drop(t);
    } else {
        set_fuse(n);
        let fired = injected("dropping the container", catch_unwind(AssertUnwindSafe(|| drop(t))));
        let f2 = clear_fuse();
        check!(f2 == fired, "the panic while dropping the container did not reach the caller");
        check!(fired || (total as u64) < n, "dropping the container did not drop {n} of {total} values");
        if fired { c.count("panics_injected", 1); c.count("panic_drop", 1); }
    }
    if let Some(f) = faults().first() { viol!("panic while dropping the container: {f}") }
}

// ---- memory ----
enum Op { Insert(usize), Goi(usize), Remove(usize) }
fn apply<V: Val>(t: &mut dyn Cont<V>, op: &Op) {
    match op { Op::Insert(k) => t.insert(*k, V::make(*k as u64)), Op::Goi(k) => { t.goi(*k); } Op::Remove(k) => { t.remove(*k); } }
}
/// Nodes a tree with these indices has, at all levels.
fn nodes_of(keys: &BTreeSet<usize>, w: usize, d: usize) -> usize {
    let b = w.trailing_zeros() as usize;
    let mut n = 1;
    for l in 1..d {
        let sh = b * (d - l);
        let mut last = None;
        for k in keys { let p = k.checked_shr(sh as u32).unwrap_or(0); if last != Some(p) { n += 1; last = Some(p); } }
    }
    n
}
pub fn memory<V: Val>(c: &mut Case, make: &dyn Fn() -> Box<dyn Cont<V>>) {
    let (w, d, dense, name) = { let t = make(); (t.w(), t.d(), t.is_dense(), t.cname()) };
    c.label = name.clone();
    let cap = match c.rng.below(3) { 0 => 30, 1 => c.sz(60, 200), _ => c.sz(80, 900) };
    let u = keys::universe(&mut c.rng, w, d, cap);
    let mut script: Vec<Op> = vec![];
    let mut keys: BTreeSet<usize> = BTreeSet::new();
    let mut at: Vec<(usize, BTreeSet<usize>, usize)> = vec![];
    let mut peak = 0;
    for _ in 0..c.sz(2, 6) {
        let mode = c.rng.below(5);
        let n = if mode >= 3 { u.len() } else { c.rng.range(20, u.len() * 2 + 40) };
        let mut order: Vec<usize> = u.clone();
        c.rng.shuffle(&mut order);
        for i in 0..n {
            let k = match mode { 3 | 4 => order[i], _ => *c.rng.pick(&u) };
            match mode {
                0 if c.rng.chance(3, 4) => { script.push(Op::Insert(k)); keys.insert(k); }
                3 => { script.push(if c.rng.chance(1, 3) { Op::Goi(k) } else { Op::Insert(k) }); keys.insert(k); }
                4 => { script.push(Op::Remove(k)); keys.remove(&k); }
                _ => {
                    match c.rng.below(5) {
                        0 | 1 => { script.push(Op::Insert(k)); keys.insert(k); }
                        2 if mode == 2 => { script.push(Op::Goi(k)); keys.insert(k); }
                        _ => { script.push(Op::Remove(k)); keys.remove(&k); }
                    }
                }
            }
            peak = peak.max(keys.len());
            if script.len() % 97 == 0 { at.push((script.len(), keys.clone(), peak)); }
        }
        at.push((script.len(), keys.clone(), peak));
    }
    let l0 = (alloc::live(), alloc::blocks());
    let mut worst = 0usize;
    {
        let mut t = make();
        let mut ai = 0;
        for (i, op) in script.iter().enumerate() {
            apply(&mut *t, op);
            while ai < at.len() && at[ai].0 == i + 1 {
                if dense {
                    let (_, ks, pk) = &at[ai];
                    let nodes = nodes_of(ks, w, d);
                    let held = alloc::live() - l0.0;
                    let per_value = (std::mem::size_of::<V>() + 8) * 4;
                    let bound = nodes * 1400 + pk * per_value + 4096 + ks.len() * 64;
                    check!(held <= bound, "a tree of {} elements in {nodes} nodes (at most {pk} elements so far) holds {held} bytes", ks.len());
                    let blocks = alloc::blocks() - l0.1;
                    let bb = 2 * nodes + 16 + ks.len() * 2;
                    check!(blocks <= bb, "a tree of {} elements in {nodes} nodes holds {blocks} blocks of memory: emptied nodes are not released", ks.len());
                    worst = worst.max(held);
                }
                ai += 1;
            }
        }
    }
    let l1 = (alloc::live(), alloc::blocks());
    check!(l1 == l0, "dropping the container left {} bytes in {} blocks", l1.0 as isize - l0.0 as isize, l1.1 as isize - l0.1 as isize);
    c.count("operations", script.len() as u64);
    c.count("memory_readings", at.len() as u64 + 1);
    c.state_if(!keys.is_empty(), shape_hash(&keys.iter().map(|k| (*k, ())).collect::<Map<()>>(), script.len() as u64));
    c.sample = Some(format!("{} operations, {} elements at the end, largest reading {} bytes", script.len(), keys.len(), worst));
}
/// Repeating one cycle of insertions and removals does not grow the container after its first round.
pub fn plateau<V: Val>(c: &mut Case, make: &dyn Fn() -> Box<dyn Cont<V>>) {
    let (w, d, name) = { let t = make(); (t.w(), t.d(), t.cname()) };
    c.label = name;
    let cap = match c.rng.below(3) { 0 => 20, 1 => c.sz(40, 150), _ => c.sz(60, 600) };
    let u = keys::universe(&mut c.rng, w, d, cap);
    let num = c.rng.below(6);
    let base: BTreeSet<usize> = keys::subset(&mut c.rng, &u, num, 10).into_iter().collect();
    let cycle: Vec<usize> = u.iter().copied().filter(|k| !base.contains(k)).collect();
    let rounds = c.sz(3, 12);
    let shuffled = c.rng.chance(1, 2);
    let style = c.rng.below(3);
    let mut orders: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for r in 0..rounds {
        if r > 0 && !shuffled { let x = orders[0].clone(); orders.push(x); continue; }
        let mut a = cycle.clone(); let mut b = cycle.clone();
        c.rng.shuffle(&mut a); c.rng.shuffle(&mut b);
        orders.push((a, b));
    }
    let l0 = (alloc::live(), alloc::blocks());
    let mut readings: Vec<(usize, usize, usize)> = Vec::with_capacity(rounds);
    {
        let mut t = make();
        for k in &base { t.insert(*k, V::make(3)); }
        for (a, b) in &orders {
            alloc::reset_peak();
            match style {
                // all in, all out
                0 => {
                    for k in a { t.insert(*k, V::make(4)); }
                    for k in b { t.remove(*k); }
                }
                // one in, one out
                1 => { for k in a { t.goi(*k); t.remove(*k); } }
                // a sliding window
                _ => {
                    let win = 8.min(a.len());
                    for i in 0..a.len() + win {
                        if i < a.len() { t.insert(a[i], V::make(5)); }
                        if i >= win { t.remove(a[i - win]); }
                    }
                }
            }
            readings.push((alloc::live() - l0.0, alloc::blocks() - l0.1, alloc::peak() - l0.0));
        }
        // in a window or one-by-one cycle in another order, other nodes may be alive at the same time
        let strict = !shuffled || style == 0;
        for (i, r) in readings.iter().enumerate().skip(1) {
            if strict {
                check!(r.0 <= readings[0].0 && r.1 <= readings[0].1,
                    "round {i} of the same cycle leaves {} bytes in {} blocks, the first left {} in {}", r.0, r.1, readings[0].0, readings[0].1);
                // (what is alive while a node grows depends on the order)
                check!(r.2 <= readings[0].2 * 2 + 4096, "round {i} of the same cycle needed {} bytes, the first {}", r.2, readings[0].2);
            } else if i > 3 {
                check!(r.0 <= readings[0].0 * 4 + 65536, "round {i} of a cycle leaves {} bytes, the first left {}", r.0, readings[0].0);
            }
        }
    }
    check!((alloc::live() - readings.capacity() * 24, alloc::blocks() - 1) == l0 || readings.capacity() == 0, "dropping the container left memory");
    c.count("rounds", rounds as u64);
    c.count("memory_readings", rounds as u64);
    c.state_if(!cycle.is_empty(), shape_hash(&u.iter().map(|k| (*k, ())).collect::<Map<()>>(), style as u64));
    c.sample = Some(format!("{} indices per cycle over {} others, readings after rounds {:?}", cycle.len(), base.len(), &readings[..3.min(readings.len())]));
}

// ---- get_or_default ----
pub fn get_or_default<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let n = cap(c);
    let mut h = Hist::new(c, t, n);
    fn look<V: Val>(c: &mut Case, h: &Hist<V>, n: usize) {
        let p = probes(&mut c.rng, &h.model, &h.universe, h.w, h.d, n);
        for k in p {
            let g = h.t.get_or_default(k).expect("harness: container without default").view();
            let w = h.model.get(&k).copied().unwrap_or(0);
            check!(g == w, "get_or_default({k}) = {g:x}, expected {w:x} (present: {})", h.model.contains_key(&k));
            c.count("defaults_read", !h.model.contains_key(&k) as u64);
        }
    }
    look(c, &h, 10);
    for _ in 0..c.sz(2, 4) {
        let steps = c.rng.range(5, 50);
        for _ in 0..steps { let ph = *c.rng.pick(&[Phase::Grow, Phase::Churn, Phase::Shrink]); h.step(c, ph); look(c, &h, 3); }
        phase(c, &mut h);
        look(c, &h, 40);
        // whole universe
        for k in h.universe.clone() {
            let g = h.t.get_or_default(k).unwrap().view();
            let w = h.model.get(&k).copied().unwrap_or(0);
            check!(g == w, "get_or_default({k}) = {g:x}, expected {w:x} (present: {})", h.model.contains_key(&k));
        }
        // write through everything that gives mutable access
        kv_write(c, &mut h);
        {
            let ids: Vec<u64> = (0..h.model.len()).map(|i| h.next_id + 1 + i as u64).collect();
            h.next_id += h.model.len() as u64;
            let (keys, vals) = h.t.kv_mut();
            check!(vals.len() == ids.len() && keys.len() == ids.len(), "key_values_mut has {} values, {} are stored", vals.len(), ids.len());
            for (v, id) in vals.iter_mut().zip(&ids) { v.set(*id); }
            let ks = keys.to_vec();
            for (k, id) in ks.iter().zip(&ids) {
                check!(h.model.contains_key(k), "key_values_mut shows index {k}, which is not stored");
                h.model.insert(*k, V::canon(*id));
            }
        }
        look(c, &h, 30);
        kv_check(c, &mut h);
        // the default is not an element
        let rm = h.rm();
        check_iter(c, h.t.reg(), &rm);
        let p = probes(&mut c.rng, &h.model, &h.universe, h.w, h.d, 20);
        for k in p { h.get(c, k); h.get_mut(c, k); if !h.model.contains_key(&k) { h.remove(c, k); } }
        look(c, &h, 10);
        c.state_if(!h.model.is_empty(), shape_hash(&h.model, (h.w * 16 + h.d) as u64));
    }
    h.drain(c);
    look(c, &h, 20);
}
/// Stale indices of reused nodes would show here: fill nodes completely, empty them, reuse them elsewhere.
pub fn get_or_default_reuse<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let (w, d) = (t.w(), t.d());
    let end = range_end(w, d);
    let n = c.sz(16, w);
    let mut h = Hist::with(c, t, vec![0]);
    let mut seen: HashMap<usize, ()> = HashMap::new();
    for _ in 0..c.sz(2, 5) {
        let l = c.rng.below(d);
        let sh = w.trailing_zeros() as usize * (d - 1 - l);
        let base = c.rng.below(end) & !((w - 1) << sh);
        let mut ks: Vec<usize> = (0..n).map(|i| base | (i << sh)).filter(|k| *k < end).collect();
        c.rng.shuffle(&mut ks);
        for k in &ks { h.insert(c, *k); seen.insert(*k, ()); }
        c.rng.shuffle(&mut ks);
        let left = c.rng.below(4);
        for k in ks.iter().skip(left) { h.remove(c, *k); }
        for k in seen.keys() {
            let g = h.t.get_or_default(*k).unwrap().view();
            let w = h.model.get(k).copied().unwrap_or(0);
            check!(g == w, "get_or_default({k}) = {g:x}, expected {w:x} (present: {})", h.model.contains_key(k));
        }
        c.count("defaults_read", seen.len() as u64);
        c.state_if(true, shape_hash(&h.model, base as u64));
    }
}
#[allow(unused)]
fn unused(_: &dyn Reg) {}
/// Panics in user code while a lazy tree is read: they reach the caller, and the tree and its cursors work on.
pub fn access_panics(c: &mut Case, t: &dyn Reg, m: &RM, all: &[usize], salt: u64) {
    let live: Vec<usize> = m.keys().copied().collect();
    for _ in 0..c.sz(3, 12) {
        let kind = c.rng.below(5);
        let n = 1 + c.rng.below(if kind == 0 || kind == 1 { 6 } else { 40 }) as u64;
        let k = if live.is_empty() { continue } else { *c.rng.pick(&live) };
        let mut cur = t.cursor();
        set_fuse(n);
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            0 => { t.get(k); }
            1 => { unsafe { t.get_u(k); } }
            2 => { let mut it = t.iter(); while it.next(false).is_some() {} }
            3 => { let mut it = t.iter(); while it.next(true).is_some() {} }
            _ => {
                let (w, d) = (t.w(), t.d());
                let dg = digits(k, w, d);
                for i in 0..12 {
                    unsafe {
                        cur.select(0, 0, false);
                        for l in 1..d { cur.select(l, dg[l - 1], i % 2 == 0); }
                        cur.data(dg[d - 1]);
                        cur.data_u(dg[d - 1]);
                    }
                }
            }
        }));
        let fired = clear_fuse();
        let ticks = ledger(|l| l.ticks);
        match r {
            Ok(()) => check!(!fired && ticks < n, "the panic of a user function in access kind {kind} of {k} did not reach the caller"),
            Err(p) => { if !p.is::<Injected>() { std::panic::resume_unwind(p) } check!(fired, "harness: panic without injection"); }
        }
        if fired {
            c.count("panics_injected", 1);
            c.state(shape_hash(m, salt ^ n << 32 ^ (kind as u64) << 48));
            // expression and cursor work on
            let p = [k];
            check_get(c, t, m, &p);
            if kind == 4 {
                let dg = digits(k, t.w(), t.d());
                unsafe { cur.select(0, 0, true); for l in 1..t.d() { cur.select(l, dg[l - 1], true); } }
                check!(unsafe { cur.data(dg[t.d() - 1]) }.as_ref() == m.get(&k), "cursor data({k}) after a panic is wrong");
            }
        }
    }
    check_iter(c, t, m);
    let p = probes(&mut c.rng, m, all, t.w(), t.d(), 20);
    check_get(c, t, m, &p);
}
