use hh::cont::PDense as P;
const WIDE: &[(usize, usize)] = &[(3, 2), (3, 3), (4, 3), (5, 3)];
include!("../inc/cont.rs");
#[allow(dead_code)]
fn main() { hh::run::main(SC) }
