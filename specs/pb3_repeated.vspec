//@module pb3::typ::repeated
//@file pb3/typ/repeated.rs
//@deps mem pb3::typ::size
//@prelude
use crate::pb3::typ::size::*;
//@end
//@fn repeated props=C08
    ensures r.0 == n,
//@fn sizeof_repeated props=C08,C10
    requires n <= size_max(),
    ensures r == s_size(n as int).len(),
