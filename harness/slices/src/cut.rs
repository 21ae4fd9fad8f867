//! C44: parts of a string by position.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

use crate::rvalue::string_substring;

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_cut.rs"));

        // There are no patterns.
        fn string_match_index(_: &mut Executor, _: &RStringInner, _: &Regexp, _: i64, _: Encoding) -> Result<Value> {
            unreachable!()
        }
        fn string_match_named(_: &mut Executor, _: &RStringInner, _: &Regexp, _: &str, _: Encoding) -> Result<Value> {
            unreachable!()
        }
        fn locate_regex_match(_: &mut Executor, _: &Regexp, _: &Value, _: Option<Value>, _: &mut Globals) -> Result<(usize, usize)> {
            unreachable!()
        }
    }
}

#[path = "cut/parts.rs"]
mod parts;

fn main() {
    pbt::main(&[parts::PROP]);
}
