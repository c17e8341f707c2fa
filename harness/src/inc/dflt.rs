// get_or_default, on the configurations of `P` (sparse) with required defaults.
fn d_make<V: Val>(i: usize) -> Box<dyn Cont<V>> where for<'a> &'a V: hh::repr::Repr { P::make::<V>(8 + i % 8) }
fn d_hist(c: &mut Case) { let t = d_make::<u64>(c.no); cs::get_or_default(c, t) }
fn d_odd(c: &mut Case) { let t = d_make::<Odd>(c.no); cs::get_or_default(c, t) }
fn d_tracked(c: &mut Case) { reset_ledger(); let t = d_make::<Tracked>(c.no); cs::get_or_default(c, t); check!(faults().is_empty(), "{}", faults()[0]); }
fn d_boxed(c: &mut Case) { let t = P::some::<Boxed>(2 + c.no % 2); cs::get_or_default(c, t) }
fn d_big(c: &mut Case) { let t = P::some::<Big>(2 + c.no % 2); cs::get_or_default(c, t) }
fn d_reuse(c: &mut Case) { let t = d_make::<Odd>(c.no); cs::get_or_default_reuse(c, t) }
pub const SC_D: &[Scenario] = &[("dflt_history", 40, d_hist), ("dflt_odd", 40, d_odd), ("dflt_tracked", 24, d_tracked), ("dflt_boxed", 8, d_boxed), ("dflt_big", 8, d_big), ("dflt_reuse", 40, d_reuse)];
#[allow(dead_code)]
fn main() { hh::run::main(&[SC, SC_D].concat()) }
