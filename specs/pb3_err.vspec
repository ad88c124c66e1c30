//@module pb3::err
//@file pb3/err.rs
//@deps mem pb3::spec
//@struct Err derive(PartialEq, Eq, Clone, Copy, Structural)
//@skip Result
//@prelude
pub type Result<T> = core::result::Result<T, Err>;
//@end
//@fn guard props=C09
    ensures r == (if condition { core::result::Result::<(), Err>::Ok(()) } else { core::result::Result::<(), Err>::Err(e) }),
