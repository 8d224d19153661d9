//! Harness for the server built without optional features.
#[path = "../../harness/src/common.rs"]
pub mod common;
#[path = "../../harness/src/rt.rs"]
pub mod rt;
mod c26;

macro_rules! table {
    ($($m:ident::$f:ident,)*) => {
        const TABLE: &[(&str, extern "C" fn(u64, u64))] = &[$((stringify!($f), $m::$f),)*];
    };
}
table! {
    c26::c26_bytes,
    c26::c26_window,
    c26::c26_insert,
    c26::c26_split,
    c26::c26_length,
    c26::c26_routes,
    c26::c26_order,
    c26::c26_answer,
    c26::c26_size,
    c26::c26_word,
    c26::c26_algebra,
    c26::c26_many,
    c26::c26_known,
}
/// native replay
pub fn dispatch(name: &str, a: u64, b: u64) {
    let f = TABLE.iter().find(|x| x.0 == name).expect("unknown entry");
    (f.1)(a, b)
}
