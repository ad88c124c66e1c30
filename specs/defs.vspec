//@module trits::defs
//@file trits/defs.rs
//@deps mem
