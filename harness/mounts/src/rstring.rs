//! C26, C35, C36, C37: the Ruby String and its packing, mounted as they are over stand-ins for
//! values, the collector and the interpreter.

#![allow(dead_code, unused)]

include!("rstring/world.rs");
include!("rstring/conversions.rs");

#[path = "rstring/cow.rs"]
mod cow;
#[path = "rstring/literal.rs"]
mod literal;
#[path = "rstring/packing.rs"]
mod packing;
#[path = "rstring/ranges.rs"]
mod ranges;

fn main() {
    pbt::main(&[ranges::PROP, cow::PROP, literal::PROP, packing::PROP]);
}
