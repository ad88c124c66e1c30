//@module pb3::typ::oneof
//@file pb3/typ/oneof.rs
//@deps mem pb3::typ::trint
//@prelude
use crate::pb3::typ::trint::*;
//@end
//@fn oneof props=C08
    ensures r.0 == n,
//@fn sizeof_oneof props=C08,C10
    ensures r == 3,
