use hh::check;
use hh::cont::PS64 as P;
const WIDE: &[(usize, usize)] = &[(3, 3), (4, 3), (11, 2), (12, 4), (5, 3), (2, 2)];
include!("../inc/cont.rs");
include!("../inc/dflt.rs");
