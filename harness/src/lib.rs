pub mod common;
pub mod rt;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod json;
pub use json::*;

macro_rules! table {
    ($($m:ident::$f:ident,)*) => {
        const TABLE: &[(&str, extern "C" fn(u64, u64))] = &[$((stringify!($f), $m::$f),)*];
    };
}
table! {
    c01::c01_bytes,
    c01::c01_head,
    c01::c01_window,
    c01::c01_insert,
    c01::c01_two,
    c01::c01_cut,
    c01::c01_length,
    c01::c01_numbers,
    c01::c01_size,
    c01::c01_known,
    c02::c02_split,
    c02::c02_trickle,
    c02::c02_window,
    c02::c02_edge,
    c02::c02_big,
    c02::c02_write,
    c02::c02_write_big,
    c03::c03_digits,
    c03::c03_value,
    c03::c03_huge,
    c03::c03_content,
    c03::c03_sizes,
    c03::c03_known,
    c04::c04_window,
    c04::c04_insert,
    c04::c04_method,
    c04::c04_version,
    c04::c04_combine,
    c04::c04_keepalive,
    c04::c04_long,
    c05::c05_window,
    c05::c05_insert,
    c05::c05_name,
    c05::c05_value,
    c05::c05_repeat,
    c05::c05_many,
    c05::c05_long,
    c05::c05_word,
    c05::c05_known,
    c05::c05_pairs,
    c06::c06_dots,
    c06::c06_bytes,
    c06::c06_window,
    c06::c06_deep,
    c06::c06_algebra,
    c06::c06_long,
    c06::c06_word,
    c06::c06_pieces,
    c06::c06_known,
    c07::c07_pattern,
    c07::c07_overlap,
    c07::c07_methods,
    c07::c07_text,
    c07::c07_deep,
    c07::c07_many,
    c07::c07_long,
    c07::c07_word,
    c07::c07_known,
    c08::c08_order,
    c08::c08_matching,
    c08::c08_silent,
    c08::c08_long,
    c09::c09_places,
    c09::c09_inside,
    c09::c09_large,
    c09::c09_patterns,
    c09::c09_methods,
    c09::c09_routers,
    c10::c10_unsent,
    c10::c10_empty,
    c10::c10_methods,
    c10::c10_unknown,
    c10::c10_rejected,
    c10::c10_word,
    c10::c10_known,
    c11::c11_headers,
    c11::c11_value,
    c11::c11_body,
    c11::c11_sizes,
    c11::c11_twice,
    c11::c11_helpers,
    c11::c11_many,
    c11::c11_fields,
    c11::c11_long,
    c11::c11_word,
    c11::c11_known,
    c11::c11_program,
    c12::c12_window,
    c12::c12_chars,
    c12::c12_value,
    c12::c12_many,
    c12::c12_none,
    c12::c12_long,
    c12::c12_word,
    c12::c12_known,
    c13::c13_one,
    c13::c13_list,
    c13::c13_many,
    c13::c13_word,
    c13::c13_long,
    c13::c13_attributes,
    c13::c13_known,
    c13::c13_program,
    c14::c14_chars,
    c14::c14_bytes,
    c14::c14_window,
    c14::c14_escape,
    c14::c14_wide,
    c14::c14_utf8,
    c14::c14_many,
    c14::c14_long,
    c14::c14_word,
    c14::c14_known,
    c15::c15_chars,
    c15::c15_window,
    c15::c15_fields,
    c15::c15_bytes,
    c15::c15_many,
    c15::c15_long,
    c15::c15_word,
    c15::c15_known,
    c16::c16_days,
    c16::c16_centuries,
    c16::c16_clock,
    c16::c16_twice,
    c16::c16_sent,
    c17::c17_content,
    c17::c17_sizes,
    c17::c17_broken,
    c17::c17_huge,
    c17::c17_refused,
    c17::c17_links,
    c17::c17_history,
    c17::c17_name,
    c17::c17_nul,
    c17::c17_word,
    c17::c17_known,
    c18::c18_extension,
    c18::c18_table,
    c18::c18_case,
    c18::c18_name,
    c18::c18_word,
    c18::c18_known,
    c18::c18_long,
    c19::c19_table,
    c19::c19_other,
    c19::c19_long,
    c20::c20_app,
    c20::c20_config,
    c21::c21_named,
    c21::c21_shapes,
    c21::c21_nested,
    c21::c21_refuse,
    c21::c21_null,
    c22::c22_history,
    c22::c22_twin,
    c22::c22_interleave,
    c22::c22_dropped,
    c22::c22_many,
    c22::c22_open,
    c22::c22_three,
    c23::c23_read,
    c23::c23_write,
    c23::c23_both,
    c23::c23_large,
}
/// native replay
pub fn dispatch(name: &str, a: u64, b: u64) {
    let f = TABLE.iter().find(|x| x.0 == name).expect("unknown entry");
    (f.1)(a, b)
}
