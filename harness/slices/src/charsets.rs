//! C40: the methods of String that take sets of characters.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

use crate::rvalue::string_substring;

pub mod indexmap {
    pub type IndexMap<K, V> = std::collections::BTreeMap<K, V>;
}

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_sets.rs"));
    }
}

#[path = "charsets/sets.rs"]
mod sets;

fn main() {
    pbt::main(&[sets::PROP]);
}
