//! C39: numbers read from text, by the methods of String and by Integer() and Float().

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/float.rs"));
    pub mod kernel {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/kernel_numbers.rs"));
        pub fn float_domain_error(_: &Globals, msg: &str) -> MonorubyErr {
            MonorubyErr::FloatDomain(msg.into())
        }
    }
    pub use kernel::*;
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_numbers.rs"));
    }
}

#[path = "numbers/parse.rs"]
mod parse;

fn main() {
    pbt::main(&[parse::PROP]);
}
