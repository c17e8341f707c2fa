//! Value types of the workloads, among them values that keep a ledger of their own lives.
use crate::repr::Repr;
use crate::rng::mix;
use crate::run::Injected;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Values the histories use: made from a fresh id, recognisable afterwards.
pub trait Val: Default + 'static {
    const NAME: &'static str;
    fn make(id: u64) -> Self;
    /// What `view` gives for a value made from `id`.
    fn canon(id: u64) -> u64;
    fn view(&self) -> u64;
    fn set(&mut self, id: u64) { *self = Self::make(id); }
}
impl Val for u64 {
    const NAME: &'static str = "u64";
    fn make(id: u64) -> u64 { id }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 { *self }
}

/// Heap-allocated.
#[derive(Default)]
pub struct Boxed(pub Box<u64>);
impl Val for Boxed {
    const NAME: &'static str = "Box<u64>";
    fn make(id: u64) -> Self { Boxed(Box::new(id)) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 { *self.0 }
}
/// One byte.
#[derive(Default)]
pub struct Tiny(pub u8);
impl Val for Tiny {
    const NAME: &'static str = "u8";
    fn make(id: u64) -> Self { Tiny(mix(id) as u8) }
    fn canon(id: u64) -> u64 { mix(id) as u8 as u64 }
    fn view(&self) -> u64 { self.0 as u64 }
}
/// Zero-sized.
#[derive(Default)]
pub struct Zst;
impl Val for Zst {
    const NAME: &'static str = "zero-sized";
    fn make(_: u64) -> Self { Zst }
    fn canon(_: u64) -> u64 { 0 }
    fn view(&self) -> u64 { 0 }
}
/// Large and over-aligned; all words depend on the id.
#[repr(align(64))]
#[derive(Default)]
pub struct Big([u64; 13]);
impl Val for Big {
    const NAME: &'static str = "large, 64-byte aligned";
    fn make(id: u64) -> Self { let mut a = [0; 13]; for (i, x) in a.iter_mut().enumerate() { *x = id.wrapping_mul(i as u64 + 1); } Big(a) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 {
        if self as *const _ as usize % 64 != 0 { return u64::MAX }
        for (i, x) in self.0.iter().enumerate() { if *x != self.0[0].wrapping_mul(i as u64 + 1) { return u64::MAX - 1; } }
        self.0[0]
    }
}
macro_rules! rp { ($($t:ty),*) => { $( impl<'a> Repr for &'a $t { #[inline] fn repr(&self, o: &mut Vec<u64>) {
    if crate::repr::ADDR.with(|a| a.get()) { o.push(*self as *const $t as u64) } else { o.push(self.view()) } } } )* } }
rp!(Boxed, Tiny, Zst, Big, Tracked, Odd, ZTracked, Counted);

/// A value that registers its birth and its death, and can be told to panic.
pub struct Tracked { id: u64, canary: u64, heap: Box<u64> }

#[derive(Default)]
pub struct Ledger {
    /// id -> alive
    pub state: BTreeMap<u64, bool>,
    pub born: u64,
    pub dead: u64,
    pub defaults: u64,
    pub faults: Vec<String>,
    next_default: u64,
    /// callbacks until an injected panic; 0 = never
    fuse: u64,
    /// callbacks seen
    pub ticks: u64,
    pub fired: bool,
}
thread_local! { pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default()); }
pub const DEFAULT_BIT: u64 = 1 << 63;

pub fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T { LEDGER.with(|l| f(&mut l.borrow_mut())) }
pub fn reset_ledger() { ledger(|l| *l = Ledger::default()) }
pub fn set_fuse(n: u64) { ledger(|l| { l.fuse = n; l.fired = false; l.ticks = 0; }) }
pub fn clear_fuse() -> bool { ledger(|l| { l.fuse = 0; l.fired }) }
pub fn live_ids() -> Vec<u64> { ledger(|l| l.state.iter().filter(|x| *x.1).map(|x| *x.0).collect()) }
pub fn faults() -> Vec<String> { ledger(|l| l.faults.clone()) }
/// A call into user code: may throw the injected panic.
pub fn tick() {
    let fire = ledger(|l| {
        l.ticks += 1;
        if l.fuse > 0 { l.fuse -= 1; if l.fuse == 0 { l.fired = true; return true; } }
        false
    });
    if fire && !std::thread::panicking() { std::panic::panic_any(Injected(1)) }
    if REENTRY.with(|r| r.get()) { reenter() }
}
thread_local! {
    static REENTRY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static REENTER: std::cell::Cell<Option<*const dyn Fn()>> = const { std::cell::Cell::new(None) };
}
/// While `body` runs, calls of user code run `f`, which looks at the trees that are just being looked at. (Calls from within `f` do not.)
pub fn with_reentry<'e>(f: &'e (dyn Fn() + 'e), body: impl FnOnce()) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { REENTRY.with(|r| r.set(false)); REENTER.with(|r| r.set(None)); } }
    let _off = Off;
    // it is taken back before it ends
    let f: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(f as *const (dyn Fn() + 'e)) };
    REENTER.with(|r| r.set(Some(f)));
    REENTRY.with(|r| r.set(true));
    body()
}
fn reenter() {
    struct On;
    impl Drop for On { fn drop(&mut self) { REENTRY.with(|r| r.set(true)) } }
    let Some(f) = REENTER.with(|r| r.get()) else { return };
    REENTRY.with(|r| r.set(false));
    let _on = On;
    unsafe { (*f)() }
}
fn birth(id: u64) {
    ledger(|l| {
        l.born += 1;
        if l.state.insert(id, true).is_some() { l.faults.push(format!("harness: id #{id} reused")); }
    })
}
impl Tracked {
    fn with(id: u64) -> Self { birth(id); Tracked { id, canary: mix(id), heap: Box::new(id) } }
    pub fn id(&self) -> u64 { self.id }
}
impl Default for Tracked {
    fn default() -> Self {
        tick();
        let id = ledger(|l| { l.next_default += 1; l.defaults += 1; DEFAULT_BIT | l.next_default });
        Tracked::with(id)
    }
}
impl Val for Tracked {
    const NAME: &'static str = "tracked";
    fn make(id: u64) -> Self { Tracked::with(id) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 {
        if self.canary != mix(self.id) || *self.heap != self.id {
            ledger(|l| l.faults.push(format!("a delivered value is not one that was ever made (id {:x})", self.id)));
            return u64::MAX;
        }
        if ledger(|l| l.state.get(&self.id).copied() != Some(true)) {
            ledger(|l| l.faults.push(format!("value #{:x} delivered after it was dropped", self.id)));
            return u64::MAX - 1;
        }
        if self.id & DEFAULT_BIT != 0 { 0 } else { self.id }
    }
    fn set(&mut self, id: u64) { *self = Tracked::with(id) }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let ok = self.canary == mix(self.id);
        ledger(|l| {
            l.dead += 1;
            if !ok { l.faults.push(format!("dropped memory that never held a value (id {:x})", self.id)); return; }
            match l.state.get_mut(&self.id) {
                Some(a) if *a => *a = false,
                Some(_) => l.faults.push(format!("value #{:x} dropped twice", self.id)),
                None => l.faults.push(format!("dropped memory that never held a value (id {:x})", self.id)),
            }
        });
        self.canary = !self.canary;
        if !ok { crate::run::fatal("dropped memory that never held a value, or a value twice"); }
        tick();
    }
}

/// Its default is not zero.
pub struct Odd(pub u64);
const ODD: u64 = 0x5A5A_0000_1234_5678;
impl Default for Odd { fn default() -> Self { Odd(ODD) } }
impl Val for Odd {
    const NAME: &'static str = "u64 with a nonzero default";
    fn make(id: u64) -> Self { Odd(id ^ ODD) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 { self.0 ^ ODD }
}

/// Zero-sized, but its births and deaths are counted.
pub struct ZTracked(());
thread_local! { static Z: std::cell::Cell<(u64, u64, u64)> = const { std::cell::Cell::new((0, 0, 0)) }; }
/// born, dead, defaults
pub fn z_counts() -> (u64, u64, u64) { Z.with(|z| z.get()) }
pub fn z_reset() { Z.with(|z| z.set((0, 0, 0))) }
impl Default for ZTracked { fn default() -> Self { Z.with(|z| { let (a, b, d) = z.get(); z.set((a + 1, b, d + 1)) }); ZTracked(()) } }
impl Val for ZTracked {
    const NAME: &'static str = "zero-sized, counted";
    fn make(_: u64) -> Self { Z.with(|z| { let (a, b, d) = z.get(); z.set((a + 1, b, d)) }); ZTracked(()) }
    fn canon(_: u64) -> u64 { 0 }
    fn view(&self) -> u64 { 0 }
}
impl Drop for ZTracked { fn drop(&mut self) { Z.with(|z| { let (a, b, d) = z.get(); z.set((a, b + 1, d)) }) } }

/// Counted lives, for values of which several may be made from one id.
pub struct Counted(std::rc::Rc<()>, Box<u64>);
thread_local! { static LIVES: std::rc::Rc<()> = std::rc::Rc::new(()); }
/// values of this type that are alive
pub fn counted_alive() -> usize { LIVES.with(|l| std::rc::Rc::strong_count(l)) - 1 }
impl Default for Counted { fn default() -> Self { Self::make(0) } }
impl Val for Counted {
    const NAME: &'static str = "counted";
    fn make(id: u64) -> Self { Counted(LIVES.with(|l| l.clone()), Box::new(id)) }
    fn canon(id: u64) -> u64 { id }
    fn view(&self) -> u64 { *self.1 }
}
