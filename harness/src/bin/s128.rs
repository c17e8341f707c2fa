use hh::check;
use hh::cont::PS128 as P;
const WIDE: &[(usize, usize)] = &[(2, 2), (3, 2), (3, 3), (11, 2), (4, 3), (1, 1)];
include!("../inc/cont.rs");
include!("../inc/dflt.rs");
