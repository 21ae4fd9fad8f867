//! C38: formatting, mounted as it is over stand-ins for values and the interpreter, with the
//! conversions of its arguments.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");

#[path = "/repo/monoruby/src/executor"]
pub mod executor {
    use super::*;
    pub mod format;
}
mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/kernel.rs"));
}

#[path = "format/sprintf.rs"]
mod sprintf;

fn main() {
    pbt::main(&[sprintf::PROP]);
}
