//! Cases built from operation histories on one container.
use crate::checks::*;
use crate::cont::Cont;
use crate::hist::*;
use crate::keys;
use crate::rng::mix2;
use crate::run::Case;
use crate::trees::{range_end, undigits};
use crate::vals::Val;

/// Every index that was ever interesting, through get and get_unchecked.
pub fn verify<V: Val>(c: &mut Case, h: &mut Hist<V>, n: usize) {
    let p = probes(&mut c.rng, &h.model, &h.universe, h.w, h.d, n);
    for k in p { h.get(c, k) }
    c.count("probes", n as u64);
}
pub fn verify_all<V: Val>(c: &mut Case, h: &mut Hist<V>) {
    let u = h.universe.clone();
    for k in &u { h.get(c, *k) }
    let live: Vec<usize> = h.model.keys().copied().collect();
    for k in live { h.get(c, k) }
    c.count("probes", u.len() as u64);
    c.state_if(h.model.len() > 1, shape_hash(&h.model, (h.w * 16 + h.d) as u64));
}

/// Random phases.
pub fn history<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let cap = match c.rng.below(4) { 0 => 12, 1 => 60, 2 => c.sz(60, 180), _ => c.sz(70, 420) };
    let mut h = Hist::new(c, t, cap);
    let phases = c.sz(2, 5);
    for _ in 0..phases {
        match c.rng.below(9) {
            0 => h.fill(c),
            1 => h.drain(c),
            2 => h.half(c),
            x => {
                let ph = [Phase::Grow, Phase::Grow, Phase::Shrink, Phase::Churn, Phase::Churn, Phase::Churn][x - 3];
                let n = c.rng.range(10, cap + 30);
                for _ in 0..n { h.step(c, ph); }
            }
        }
        verify_all(c, &mut h);
        verify(c, &mut h, 20);
    }
    c.count("operations", h.ops);
}

/// One level swept through all of its fill states, up and down, every other index watched.
pub fn level_sweep<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let (w, d) = (t.w(), t.d());
    let l = c.rng.below(d);
    let mut base: Vec<usize> = (0..d).map(|_| c.rng.below(w)).collect();
    if c.rng.chance(1, 3) { for (i, x) in base.iter_mut().enumerate() { if i != l { *x = if c.rng.chance(1, 2) { 0 } else { w - 1 } } } }
    let end = range_end(w, d);
    let n = if c.scale == 0 { 24.min(w) } else { w };
    let mut order: Vec<usize> = (0..w).collect();
    match c.rng.below(4) { 0 => {} 1 => order.reverse(), _ => c.rng.shuffle(&mut order) }
    order.truncate(n);
    let mut u: Vec<usize> = order.iter().map(|x| { let mut g = base.clone(); g[l] = *x; undigits(&g, w) }).filter(|k| *k < end).collect();
    if u.is_empty() { u.push(0); }
    let mut h = Hist::with(c, t, u.clone());
    // a second, parallel family makes neighbouring nodes live and die too
    let twin = c.rng.chance(1, 2);
    let tw = |k: usize| k ^ 1;
    for round in 0..2 {
        for (i, &k) in u.iter().enumerate() {
            if c.rng.chance(1, 3) { h.goi(c, k) } else { h.insert(c, k) }
            if twin && i % 3 == 0 && tw(k) < end { let id_k = tw(k); h.insert(c, id_k) }
            h.get(c, k);
            let j = c.rng.below(u.len()); h.get(c, u[j]);
            if i % 16 == 15 { for &x in &u { h.get(c, x) } }
        }
        verify_all(c, &mut h);
        let mut down = u.clone();
        match c.rng.below(4) { 0 => {} 1 => down.reverse(), _ => c.rng.shuffle(&mut down) }
        let stop = if round == 1 { 0 } else { c.rng.below(8) };
        for (i, &k) in down.iter().enumerate() {
            if down.len() - i <= stop { break; }
            h.remove(c, k);
            if c.rng.chance(1, 4) { h.remove(c, k); }
            let j = c.rng.below(u.len()); h.get(c, u[j]);
            if i % 16 == 15 { for &x in &u { h.get(c, x) } }
        }
        verify_all(c, &mut h);
    }
    c.count("level_sweeps", 1);
    c.count("operations", h.ops);
}

/// A long dense run of indices, then holes, then refilled.
pub fn long_run<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>) {
    let end = range_end(t.w(), t.d());
    let n = c.sz(80, 4000).min(end);
    let step = c.rng.range(1, 3).min(end / n).max(1);
    let start = match c.rng.below(3) { 0 => 0, 1 => end - n * step, _ => c.rng.below(end - n * step + 1) };
    let mut u: Vec<usize> = (0..n).map(|i| start + i * step).collect();
    if c.rng.chance(1, 2) { c.rng.shuffle(&mut u); }
    let mut h = Hist::with(c, t, u);
    h.fill(c);
    verify_all(c, &mut h);
    h.half(c);
    verify_all(c, &mut h);
    for _ in 0..n / 2 { h.step(c, Phase::Churn); }
    h.fill(c);
    verify_all(c, &mut h);
    h.drain(c);
    verify_all(c, &mut h);
    c.count("operations", h.ops);
}

/// About `n` distinct paths down to level `l`, so that every node list there gets that long.
pub fn wide<V: Val>(c: &mut Case, t: Box<dyn Cont<V>>, l: usize, n: usize) {
    let (w, d) = (t.w(), t.d());
    let b = w.trailing_zeros() as usize;
    let below_bits = b * (d - 1 - l).min(7);
    let prefixes = w.saturating_pow(l as u32 + 1);
    let n = n.min(prefixes);
    let end = range_end(w, d);
    // distinct prefixes through a multiplicative permutation
    let mul = c.rng.u64() as usize | 1;
    let add = c.rng.u64() as usize;
    let mut u: Vec<usize> = Vec::with_capacity(n);
    for i in 0..n {
        let p = if n == prefixes { i } else { (i.wrapping_mul(mul).wrapping_add(add)) & (prefixes - 1) };
        let low = c.rng.u64() as usize & ((1usize << below_bits) - 1);
        let k = (p << (b * (d - 1 - l))) | low;
        if k < end { u.push(k); }
    }
    u.sort(); u.dedup();
    c.rng.shuffle(&mut u);
    let mut h = Hist::with(c, t, u.clone());
    c.label = format!("{} with {} prefixes at level {l}", h.t.cname(), u.len());
    for &k in &u { h.insert(c, k) }
    verify_all(c, &mut h);
    for &k in u.iter().step_by(2) { h.remove(c, k); }
    verify_all(c, &mut h);
    for &k in u.iter().step_by(4) { h.goi(c, k); }
    for _ in 0..2000 { let k0 = *c.rng.pick(&u); let k = keys::near(&mut c.rng, k0, w, d); h.insert(c, k); }
    for &k in u.iter().skip(1).step_by(3) { h.remove(c, k); }
    verify_all(c, &mut h);
    c.count("wide_histories", 1);
    c.count("operations", h.ops);
}

/// More elements than narrow counters can tell apart, by formula instead of by model: element i of n has index base + i * step.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge { Map, Iter, Kv }
pub fn huge(c: &mut Case, mut t: Box<dyn Cont<u64>>, n: usize, judge: Judge) {
    let end = range_end(t.w(), t.d());
    let n = n.min(end);
    let step = c.rng.range(1, 3).min(end / n);
    let base = match c.rng.below(3) { 0 => 0, 1 => end - n * step, _ => c.rng.below(end - n * step + 1) };
    let m = n.next_power_of_two();
    let (mul, add) = match c.rng.below(3) { 0 => (1, 0), 1 => (m - 1, m - 1), _ => ((c.rng.u64() as usize | 1) & (m - 1), c.rng.u64() as usize) };
    let order = move || (0..m).map(move |j| j.wrapping_mul(mul).wrapping_add(add) & (m - 1)).filter(move |i| *i < n);
    let key = move |i: usize| base + i * step;
    let val = |i: usize, stage: u64| mix2(i as u64, stage);
    let stored = move |i: usize, stage: u64| match stage {
        0 => Some(val(i, 0)),
        1 => if i % 3 == 1 { None } else { Some(val(i, 0)) },
        _ => if i % 7 == 0 { Some(val(i, 2)) } else if i % 3 == 1 { None } else { Some(val(i, 0)) },
    };
    c.label = format!("{} with {n} elements from {base} by {step}", t.cname());
    for stage in 0..3u64 {
        for i in order() {
            let k = key(i);
            match stage {
                0 => t.insert(k, val(i, 0)),
                1 if i % 3 == 1 => { let r = t.remove(k); check!(r == Some(val(i, 0)) || judge != Judge::Map, "remove({k}) gives {r:x?}") }
                2 if i % 7 == 0 => {
                    if i % 2 == 0 { t.insert(k, val(i, 2)) }
                    else { let r = t.goi(k); check!(*r == stored(i, 1).unwrap_or(0) || judge != Judge::Map, "get_or_insert({k}) gives {r:x}"); *r = val(i, 2) }
                }
                _ => {}
            }
        }
        match judge {
            Judge::Map => for i in order() {
                let (k, e) = (key(i), stored(i, stage));
                let g = t.get_ref(k).copied();
                check!(g == e, "get({k}) gives {g:x?}, expected {e:x?}");
            }
            Judge::Iter => {
                let mut it = t.reg().iter();
                for i in 0..n {
                    let Some(e) = stored(i, stage) else { continue };
                    let g = it.next(i & 64 == 0);
                    check!(g.as_ref().is_some_and(|g| g.0 == key(i) && g.1 .0 == [e]), "iteration gives {g:x?}, expected ({:#x}, {e:x})", key(i));
                }
                let g = it.next(false);
                check!(g.is_none(), "iteration gives {g:x?} behind the last element");
            }
            Judge::Kv => {
                let (ks, vs) = t.kv();
                let count = (0..n).filter(|i| stored(*i, stage).is_some()).count();
                check!(ks.len() == count && vs.len() == count, "key_values: {} keys and {} values of {count} elements", ks.len(), vs.len());
                let mut seen = vec![false; n];
                for (k, v) in ks.iter().zip(vs) {
                    let i = k.wrapping_sub(base) / step;
                    check!(i < n && key(i) == *k && stored(i, stage) == Some(*v), "key_values has {v:x} at {k:#x}");
                    check!(!std::mem::replace(&mut seen[i], true), "key_values has {k:#x} twice");
                }
            }
        }
        c.state_if(n > 1, mix2(mix2(n as u64, stage), mix2(base as u64, step as u64)));
    }
    c.count("huge_trees", 1);
    c.count("huge_elements", n as u64);
}

/// The cost of single operations on a large tree, whatever its size: CPU time of this thread (a hundred times what is usual, a tenth of what going through
/// all elements would take), and bytes asked of the allocator.
pub fn cost(c: &mut Case, t: Box<dyn Cont<u64>>, n: usize) {
    let (w, d, name) = (t.w(), t.d(), t.cname());
    let mut t = Some(t);
    cost_of(c, w, d, name, n, &mut |n, key, slow| { let mut t = t.take().unwrap(); for i in 0..n { t.insert(key(i), i as u64); slow("inserting", i) } t })
}
/// ... on the tree that `build` makes, given the number of elements and their indices, and a judge of the time so far.
pub fn cost_of<'a>(c: &mut Case, w: usize, d: usize, name: String, n: usize, build: &mut dyn FnMut(usize, &dyn Fn(usize) -> usize, &dyn Fn(&str, usize)) -> Box<dyn Cont<u64> + 'a>) {
    let end = range_end(w, d);
    let n = n.min(end / 4);
    let how = c.rng.below(3);
    let mul = c.rng.u64() as usize | 1;
    // (few elements for each node would make nodes the largest part)
    let m = (n * 16).next_power_of_two() / if n * 16 > end { 4 } else { 1 };
    // distinct indices: near each other, or all over the range
    let key = move |i: usize| match how { 0 => 2 * i, 1 => i.wrapping_mul(mul) & (m - 1), _ => end - 1 - 3 * i };
    c.label = format!("{name} of {n} elements");
    let (r0, l0) = (crate::alloc::requested(), crate::alloc::live());
    let t0 = crate::run::thread_us();
    // (judged on the way, so that a slow one is soon known)
    let slow = |what: &str, i: usize| if i % 1024 == 1023 {
        let us = crate::run::thread_us() - t0;
        check!(us <= 200_000 + 10 * i as u64, "{what} {i} elements of {n} takes {us} us of CPU time");
    };
    let mut t = build(n, &key, &slow);
    let (asked, held) = (crate::alloc::requested() - r0, crate::alloc::live().saturating_sub(l0));
    check!(asked <= 64 * held + (1 << 20), "building a tree of {n} elements asked for {asked} bytes, of which {held} remain");
    const M: usize = 2000;
    let far = |i: usize| key((i * 7919 + 13) % n);
    let mut worst = 0;
    macro_rules! op { ($what:literal, $i:ident => $e:expr) => {{
        let r0 = crate::alloc::requested();
        let t0 = crate::run::thread_us();
        for $i in 0..M { $e; }
        let us = crate::run::thread_us() - t0;
        let asked = crate::alloc::requested() - r0;
        check!(us <= 150_000, "{} takes {} us of CPU time on average on a tree of {n} elements", $what, us / M as u64);
        check!(asked <= M * 16384 + 3 * held, "{}, {M} times, asked for {asked} bytes on a tree of {n} elements", $what);
        worst = us.max(worst);
        c.count("operations_timed", M as u64);
    }} }
    op!("get", i => check!(t.get_ref(far(i)).is_some(), "get({}) finds nothing", far(i)));
    op!("get of absent elements", i => { std::hint::black_box(t.get_ref(far(i) ^ 1)); });
    op!("get_unchecked", i => { std::hint::black_box(unsafe { t.get_ref_u(far(i)) }); });
    op!("get_or_insert of a stored element", i => { *t.goi(far(i)) += 1; });
    op!("insert in place of a stored element", i => t.insert(far(i), i as u64));
    op!("remove and insert", i => { let v = t.remove(far(i)); check!(v.is_some(), "remove({}) finds nothing", far(i)); t.insert(far(i), 7) });
    op!("get_or_insert and remove", i => { let k = far(i) ^ 1; if t.get_ref(k).is_none() { *t.goi(k) = 7; t.remove(k); } });
    op!("remove of absent elements", i => { let k = far(i) ^ 1; if t.get_ref(k).is_none() { t.remove(k); } });
    op!("get_mut", i => { if let Some(Some(x)) = t.get_mut(far(i)) { *x += 1 } });
    op!("get_or_default", i => { std::hint::black_box(t.get_or_default(far(i) ^ (i & 1))); });
    op!("key_values", i => { let (k, v) = t.kv(); check!(k.len() == v.len() && k.len() == n, "key_values: {} keys and {} values of {n} elements, {i}", k.len(), v.len()) });
    op!("key_values_mut", i => { let (k, v) = t.kv_mut(); v[i % n] = k[i % n] as u64; });
    op!("creating an iterator and taking three elements", i => { let r = t.reg(); let mut it = r.iter(); for _ in 0..3 { it.next(i % 2 == 0); } });
    op!("following a path by a cursor", i => {
        let r = t.reg();
        let mut cur = r.cursor();
        let g = crate::trees::digits(far(i), w, d);
        unsafe { for l in 0..d { cur.select(l, if l == 0 { 0 } else { g[l - 1] }, i % 2 == 0); } check!(cur.data(g[d - 1]).is_some(), "cursor finds nothing") }
    });
    op!("index_range", _i => { std::hint::black_box(t.range()); });
    {
        let t0 = crate::run::thread_us();
        let r = t.reg();
        let (mut it, mut k) = (r.iter(), 0);
        while it.next(false).is_some() { k += 1 }
        check!(k == n, "iteration yields {k} elements of {n}");
        let us = crate::run::thread_us() - t0;
        check!(us <= 200_000 + 10 * n as u64, "iterating over {n} elements takes {us} us of CPU time");
    }
    {
        let t0 = crate::run::thread_us();
        for i in 0..n {
            check!(t.remove(key(i)).is_some(), "remove({}) finds nothing", key(i));
            if i % 1024 == 1023 {
                let us = crate::run::thread_us() - t0;
                check!(us <= 200_000 + 10 * i as u64, "removing {i} elements of {n} takes {us} us of CPU time");
            }
        }
    }
    if std::env::var_os("METER").is_some() { eprintln!("METER {worst} us for {M} operations, {} asked per byte held", asked / held.max(1)); }
    c.count("elements_in_timed_trees", n as u64);
    c.state(mix2(mix2(n as u64, how as u64), mix2((w * 16 + d) as u64, t.is_dense() as u64 * 2 + t.req_default() as u64)));
}
