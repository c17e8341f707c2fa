use hh::check;
use hh::cont::PS256 as P;
const WIDE: &[(usize, usize)] = &[(1, 1), (2, 2), (2, 1), (3, 2), (10, 2), (3, 3)];
include!("../inc/cont.rs");
include!("../inc/dflt.rs");
