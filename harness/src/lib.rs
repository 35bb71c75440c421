//! Harnesses: each entry is executed symbolically (from its LLVM IR) and natively (replay).

pub mod big;
pub mod io;
pub mod misc;
pub mod model;
pub mod ops;
pub mod rd;
pub mod sym;
pub mod wr;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// The entry points, as exported symbols for the symbolic executor.
        pub mod entry {
            $(#[no_mangle] pub extern "C" fn $f(p: u64) { super::$m::$f(p) })*
        }
        /// The same entry points by name, for the native replay.
        pub const TABLE: &[(&str, extern "C" fn(u64))] = &[$((stringify!($f), entry::$f)),*];
    };
}

entries! {
    io::c01_roundtrip,
    io::c02_definition,
    io::c03_data,
    io::c03_definition,
    io::c04_history,
    io::c15_write,
    io::c15_name,
    io::c15_read,
    rd::rd_raw,
    rd::rd_words,
    rd::rd_trunc,
    rd::rd_shift,
    rd::rd_utf8,
    rd::rd_layout,
    rd::rd_sole,
    rd::rd_agree,
    rd::rd_seq,
    rd::rd_count,
    rd::rd_limits,
    ops::ops,
    misc::c13_valid,
    misc::c13_long,
    misc::c13_entry,
    misc::c17_life,
    misc::c18_header,
    misc::c18_refused,
    misc::c18_far,
    misc::c21,
    wr::c09_write,
    wr::c09_read,
    ops::many_dims,
    ops::c14_sizes,
    big::big,
    big::big_lists,
}
