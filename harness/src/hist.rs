//! Operation histories on a container, mirrored on an ordinary map, every return value judged.
use crate::checks::Map;
use crate::keys;
use crate::checks::RM;
use crate::cont::Cont;
use crate::repr::R;
use crate::run::Case;
use crate::trees::range_end;
use crate::vals::Val;
use crate::{check, viol};

/// What kind of operations a phase prefers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phase { Grow, Shrink, Churn, Fill, Drain }

pub struct Hist<V: Val> {
    pub t: Box<dyn Cont<V>>,
    pub model: Map<u64>,
    pub universe: Vec<usize>,
    pub next_id: u64,
    pub w: usize,
    pub d: usize,
    pub ops: u64,
}

impl<V: Val> Hist<V> {
    pub fn new(c: &mut Case, t: Box<dyn Cont<V>>, cap: usize) -> Self {
        let universe = keys::universe(&mut c.rng, t.w(), t.d(), cap);
        Self::with(c, t, universe)
    }
    pub fn with(c: &mut Case, t: Box<dyn Cont<V>>, universe: Vec<usize>) -> Self {
        let (w, d) = (t.w(), t.d());
        c.label = t.cname();
        c.log(|| format!("{} universe of {} keys: {:?}", t.cname(), universe.len(), &universe[..universe.len().min(40)]));
        Hist { t, model: Map::new(), universe, next_id: 1, w, d, ops: 0 }
    }
    /// The model in the encoding of the oracles.
    pub fn rm(&self) -> RM { self.model.iter().map(|(k, v)| (*k, R(vec![*v]))).collect() }
    fn id(&mut self) -> u64 { self.next_id += 1; self.next_id }

    pub fn key(&self, c: &mut Case) -> usize {
        if c.rng.chance(1, 24) { let k = *c.rng.pick(&self.universe); keys::near(&mut c.rng, k, self.w, self.d) }
        else if c.rng.chance(1, 60) { c.rng.below(range_end(self.w, self.d)) }
        else { *c.rng.pick(&self.universe) }
    }
    pub fn live_key(&self, c: &mut Case) -> Option<usize> {
        if self.model.is_empty() { return None; }
        let k = *c.rng.pick(&self.universe);
        self.model.range(k..).next().or_else(|| self.model.iter().next()).map(|(k, _)| *k)
    }

    pub fn insert(&mut self, c: &mut Case, k: usize) {
        let id = self.id();
        c.log(|| format!("insert({k}, #{id})"));
        self.t.insert(k, V::make(id));
        self.model.insert(k, V::canon(id));
        self.ops += 1;
    }
    pub fn remove(&mut self, c: &mut Case, k: usize) -> Option<V> {
        c.log(|| format!("remove({k})"));
        let g = self.t.remove(k);
        let w = self.model.remove(&k);
        let gv = g.as_ref().map(|v| v.view());
        check!(gv == w, "remove({k}): returned {gv:?}, expected {w:?}");
        self.ops += 1;
        g
    }
    pub fn goi(&mut self, c: &mut Case, k: usize) {
        let write = c.rng.chance(1, 2);
        let id = self.id();
        c.log(|| format!("get_or_insert({k}){}", if write { format!(" = #{id}") } else { String::new() }));
        let want = self.model.get(&k).cloned().unwrap_or(0);
        let r = self.t.goi(k);
        let got = r.view();
        check!(got == want, "get_or_insert({k}): refers to {got:?}, expected {want:?}");
        if write { r.set(id); self.model.insert(k, V::canon(id)); } else { self.model.insert(k, want); }
        self.ops += 1;
    }
    pub fn get(&mut self, c: &mut Case, k: usize) {
        c.log(|| format!("get({k})"));
        let want = self.model.get(&k);
        let got = self.t.get_ref(k).map(|v| v.view());
        check!(got.as_ref() == want, "get({k}): {got:?}, expected {want:?}");
        if want.is_some() {
            let g: &V = unsafe { self.t.get_ref_u(k) };
            check!(Some(&g.view()) == want, "get_unchecked({k}): {:?}, expected {want:?}", g.view());
        }
        self.ops += 1;
    }
    pub fn get_mut(&mut self, c: &mut Case, k: usize) {
        let write = c.rng.chance(1, 2);
        let id = self.id();
        c.log(|| format!("get_mut({k}){}", if write { format!(" = #{id}") } else { String::new() }));
        let want = self.model.get(&k).cloned();
        if let Some(r) = self.t.get_mut(k) {
            let got = r.as_ref().map(|v| v.view());
            check!(got == want, "get_mut({k}): {got:?}, expected {want:?}");
            if let Some(r) = r { if write { r.set(id); self.model.insert(k, V::canon(id)); } }
        }
        if want.is_some() && c.rng.chance(1, 2) {
            let id = self.id();
            let want = self.model.get(&k).cloned();
            if let Some(r) = unsafe { self.t.get_mut_u(k) } {
                let got = Some(r.view());
                check!(got == want, "get_mut_unchecked({k}): {got:?}, expected {want:?}");
                r.set(id);
                self.model.insert(k, V::canon(id));
            }
        }
        self.ops += 1;
    }

    /// One random operation of the phase.
    pub fn step(&mut self, c: &mut Case, ph: Phase) {
        let r = c.rng.below(100);
        let (ins, rem) = match ph { Phase::Grow => (70, 8), Phase::Shrink => (8, 70), Phase::Churn => (38, 38), Phase::Fill => (90, 0), Phase::Drain => (0, 90) };
        if r < ins {
            let k = self.key(c);
            if c.rng.chance(1, 3) { self.goi(c, k) } else { self.insert(c, k) }
        } else if r < ins + rem {
            let k = if c.rng.chance(3, 4) { self.live_key(c).unwrap_or_else(|| self.universe[0]) } else { self.key(c) };
            self.remove(c, k);
        } else {
            let k = self.key(c);
            if c.rng.chance(1, 3) { self.get_mut(c, k) } else { self.get(c, k) }
        }
    }

    /// Insert the whole universe in a chosen order.
    pub fn fill(&mut self, c: &mut Case) {
        let mut u = self.universe.clone();
        match c.rng.below(4) { 0 => {} 1 => u.reverse(), _ => c.rng.shuffle(&mut u) }
        for k in u { if c.rng.chance(1, 4) { self.goi(c, k) } else { self.insert(c, k) } }
    }
    /// Remove everything in a chosen order.
    pub fn drain(&mut self, c: &mut Case) {
        let mut u: Vec<usize> = self.model.keys().copied().collect();
        match c.rng.below(4) { 0 => {} 1 => u.reverse(), _ => c.rng.shuffle(&mut u) }
        for k in u { self.remove(c, k); if c.rng.chance(1, 16) { self.remove(c, k); } }
        if !self.model.is_empty() { viol!("harness: model not empty") }
    }
    /// Remove about half, in chosen order.
    pub fn half(&mut self, c: &mut Case) {
        let mut u: Vec<usize> = self.model.keys().copied().collect();
        if c.rng.chance(1, 2) { c.rng.shuffle(&mut u); }
        let n = u.len() / 2;
        for k in u.into_iter().take(n) { self.remove(c, k); }
    }
}
