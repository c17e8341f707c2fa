// All scenarios on one family of containers (`P`); `WIDE`: (configuration, level) pairs for wide trees.
use hh::cases as cs;
use hh::cont::*;
use hh::histcases::*;
use hh::run::*;
use hh::vals::*;

/// Some value type, some configuration.
macro_rules! some { ($c:ident, $t:ident => $e:expr) => {{
    let i = $c.no / 6;
    match $c.no % 6 {
        0 => { let $t = P::some::<Boxed>(i); $e }
        1 => { let $t = P::some::<Tiny>(i); $e }
        2 => { let $t = P::some::<Zst>(i); $e }
        3 => { let $t = P::some::<Big>(i); $e }
        4 => { let $t = P::some::<Odd>(i); $e }
        _ => { reset_ledger(); let $t = P::some::<Tracked>(i); $e }
    }
}} }

fn map_hist(c: &mut Case) { let t = P::make::<u64>(c.no); history(c, t) }
fn map_sweep(c: &mut Case) { let t = P::make::<u64>(c.no); level_sweep(c, t) }
fn map_run(c: &mut Case) { let t = P::make::<u64>(c.no); long_run(c, t) }
/// More than 65536 nodes on every level that can have them, of trees that are not too deep.
fn map_wide(c: &mut Case) {
    let (cfg, l) = WIDE[c.no % WIDE.len()];
    let t = P::make::<u64>(cfg);
    let n = c.sz(300, 70_000);
    wide(c, t, l, n)
}
fn map_values(c: &mut Case) { some!(c, t => history(c, t)) }

fn iter_hist(c: &mut Case) { let t = P::make::<u64>(c.no); cs::iteration(c, t) }
fn iter_values(c: &mut Case) { some!(c, t => cs::iteration(c, t)) }
fn iter_long(c: &mut Case) { let t = P::make::<u64>(c.no); cs::iteration_long(c, t) }

fn kv_hist(c: &mut Case) { let t = P::make::<u64>(c.no); cs::key_values(c, t) }
fn kv_values(c: &mut Case) { some!(c, t => cs::key_values(c, t)) }
fn kv_long(c: &mut Case) { let t = P::make::<u64>(c.no); cs::key_values_long(c, t) }

fn range_hist(c: &mut Case) { let t = P::make::<u64>(c.no); cs::range(c, t) }
fn range_values(c: &mut Case) { some!(c, t => cs::range(c, t)) }

fn cur_hist(c: &mut Case) { let t = P::make::<u64>(c.no); cs::cursor(c, t) }
fn cur_values(c: &mut Case) { some!(c, t => cs::cursor(c, t)) }

fn mask_hist(c: &mut Case) { let t = P::make::<u64>(c.no); let f = P::make::<u64>(c.no); cs::masks(c, t, f) }

fn own_hist(c: &mut Case) { let i = c.no; cs::ownership(c, &move || P::make::<Tracked>(i)) }
fn own_zst(c: &mut Case) { let i = c.no; cs::ownership_zst(c, Box::new(move || P::some::<ZTracked>(i))) }

fn panic_hist(c: &mut Case) { let i = c.no; cs::panics(c, &move || P::make::<Tracked>(i)) }

fn mem_hist(c: &mut Case) { let i = c.no; cs::memory::<u64>(c, &move || P::make::<u64>(i)) }
fn mem_boxed(c: &mut Case) { let i = c.no; cs::memory::<Boxed>(c, &move || P::some::<Boxed>(i)) }
fn mem_plateau(c: &mut Case) { let i = c.no; cs::plateau::<u64>(c, &move || P::make::<u64>(i)) }
fn mem_plateau_boxed(c: &mut Case) { let i = c.no; cs::plateau::<Boxed>(c, &move || P::some::<Boxed>(i)) }

/// The second and later of a thorough run are larger.
fn huge_n(c: &Case) -> usize { if c.no > 1 { c.sz(200, 17_000_000) } else { c.sz(200, 1_150_000) } }
fn huge_map(c: &mut Case) { let n = huge_n(c); huge(c, P::make::<u64>(4 + c.no % 2 * (P::N / 2)), n, Judge::Map) }
fn work_size(c: &mut Case) { let n = c.sz(64, 1 << 20); let j = c.no + c.no / 8; let i = [3, 4, 2, 5][j % 4]; let t = P::make::<u64>(i + j / 4 % 2 * (P::N / 2)); cost(c, t, n) }
fn huge_iter(c: &mut Case) { let n = huge_n(c); huge(c, P::make::<u64>(4 + c.no % 2 * (P::N / 2)), n, Judge::Iter) }
fn huge_kv(c: &mut Case) { let n = huge_n(c); huge(c, P::make::<u64>(4 + c.no % 2 * (P::N / 2)), n, Judge::Kv) }

pub const SC: &[Scenario] = &[
    ("huge_map", -1, huge_map), ("huge_iter", -1, huge_iter), ("huge_kv", -1, huge_kv),
    ("work_size", -8, work_size),
    ("map_history", 60, map_hist), ("map_sweep", 40, map_sweep), ("map_run", 6, map_run), ("map_wide", -8, map_wide), ("map_values", 36, map_values),
    ("iter_history", 60, iter_hist), ("iter_values", 24, iter_values), ("iter_long", 3, iter_long),
    ("kv_history", 50, kv_hist), ("kv_values", 24, kv_values), ("kv_long", 3, kv_long),
    ("range_history", 60, range_hist), ("range_values", 18, range_values),
    ("cur_history", 60, cur_hist), ("cur_values", 18, cur_values),
    ("mask_history", 60, mask_hist),
    ("own_history", 60, own_hist), ("own_zst", 20, own_zst),
    ("panic_history", 60, panic_hist),
    ("mem_history", 40, mem_hist), ("mem_boxed", 12, mem_boxed), ("mem_plateau", 40, mem_plateau), ("mem_plateau_boxed", 8, mem_plateau_boxed),
];
