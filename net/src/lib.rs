//! Harness for the listener: the real runtime over a model of the sockets.
#[path = "../../harness/src/common.rs"]
pub mod common;
#[path = "../../harness/src/rt.rs"]
pub mod rt;
mod c24;
mod sockets;

macro_rules! table {
    ($($m:ident::$f:ident,)*) => {
        const TABLE: &[(&str, extern "C" fn(u64, u64))] = &[$((stringify!($f), $m::$f),)*];
    };
}
table! {
    c24::c24_kinds,
    c24::c24_scarce,
    c24::c24_bytes,
    c24::c24_stalled,
    c24::c24_many,
    c24::c24_start,
    c24::c24_failed,
}
/// native replay
pub fn dispatch(name: &str, a: u64, b: u64) {
    let f = TABLE.iter().find(|x| x.0 == name).expect("unknown entry");
    (f.1)(a, b)
}
