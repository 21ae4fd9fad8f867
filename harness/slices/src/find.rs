//! C43: where one string is in another, and what is between.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

use crate::rvalue::{eucjp_char_width, sjis_char_width, string_substring};

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_find.rs"));

        /// Only strings are searched for.
        fn coerce_pattern_for_byte_search(_: &mut Executor, _: &mut Globals, _: Value) -> Result<Regexp> {
            unreachable!()
        }
    }
}

#[path = "find/seek.rs"]
mod seek;

fn main() {
    pbt::main(&[seek::PROP]);
}
