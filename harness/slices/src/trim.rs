//! C41: the methods of String that work on its ends.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

use crate::rvalue::string_substring;

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_trim.rs"));
    }
}

#[path = "trim/ends.rs"]
mod ends;

fn main() {
    pbt::main(&[ends::PROP]);
}
